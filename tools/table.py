# One entry per property: see gen.py.
PARSE = "crates/styx-parse/src/parser/mod.rs"
LEX = "crates/styx-parse/src/lexer.rs"
TOK = "crates/styx-tokenizer/src/tokenizer.rs"
TREE = "crates/styx-tree/src/builder.rs"
EXH = "explicit-state enumeration of all inputs up to a bound on the real code, each execution compared with a reference model"

PROPS = [
    dict(
        id="C01", title="Scalar contents are exactly what the language defines",
        statement="For every scalar (bare, quoted with escapes, raw with any number of hashes, heredoc with any delimiter and indentation), the value handed to the user is the text the language reference defines for it, in key, value, tag-payload and sequence position. Scalars the reference calls invalid (unknown or malformed escapes, code points that are not characters, unterminated scalars, over-long delimiters) are rejected.",
        over=["inputs"], quant="all sequences of up to 5 (thorough 6-7) scalar pieces, in several positions; all raw scalars with up to 600 (2000) hashes; all heredocs of up to 6 (7) line pieces",
        why="The suites check a few dozen literals; the escape, dedent and delimiter rules are stated for every content and their error paths only fail on particular combinations.",
        mech=[("escape processing and raw/heredoc extraction", LEX), ("scalar boundaries", TOK), ("escape errors", PARSE)],
        technique=EXH,
        note="Exhaustive within the stated alphabets and lengths; the oracle is an independent parser written from docs/content/reference/spec/parser.md. Documents the reference leaves open are not judged.",
    ),
    dict(
        id="C02", title="Exactly the documents of the grammar are accepted, with the right tree",
        statement="Every document is either accepted with exactly the tree the language reference assigns to it (entries in order, objects, sequences, tags, units, attributes, doc comments), or rejected with at least one error, as the reference prescribes. The event stream and the document tree agree on both.",
        over=["inputs"], quant="all token sequences of length up to 5 (thorough 6) over 24 lexemes covering every token class, and longer ones over smaller alphabets (structure, comments, line ends, attributes, tags, adjacency)",
        why="Golden files and unit tests fix about two hundred documents; grammar errors appear in combinations of adjacent tokens nobody wrote down.",
        mech=[("event parser", PARSE), ("lexer", LEX), ("tree builder", TREE)],
        technique=EXH,
        note="Exhaustive within the stated alphabets and lengths; oracle as for C01. Chained tags are compared on the event stream only (the tree type cannot hold them).",
    ),
    dict(
        id="C03", title="Duplicate, reopened and nested-into-terminal keys are always detected",
        statement="Within one object (implicit root, braces, nested, tag payload, attributes), an entry is rejected exactly when its key or dotted path repeats a defined one, reopens a path closed by a sibling, or nests into a value that is not an object. Keys are compared by parsed value: quoting and escapes do not matter, unit equals unit, tags compare by name and payload.",
        over=["histories"], quant="all histories of up to 4-7 (thorough 5-9) entries over sets of plain, dotted, quoted, unit and tagged keys with several kinds of values, in six enclosing contexts",
        why="The rule is a property of the whole history of keys in an object; tests contain a dozen two- and three-entry histories.",
        mech=[("path state", PARSE + ":PathState"), ("key identity", PARSE + ":KeyValue")],
        technique="explicit-state enumeration of entry histories; every history replayed on the real parser against a path-state model",
        note="Exhaustive over the stated histories. A dotted key that repeats a key of an explicit object of the same name is left undecided by the reference and not judged.",
    ),
    dict(
        id="C04", title="Any text is processed without failure, losslessly and well-formedly",
        statement="For every text, valid or not, tokenizing, parsing (documents and expressions), tree building and syntax-tree building terminate without failure. Tokens tile the source, the syntax tree reproduces it byte for byte, every reported position lies inside it on a character boundary, and parse events are properly nested. When no error is reported the events form a complete document and the tree is built; when one is, it is not.",
        over=["inputs"], quant="all strings of up to 4 (thorough 5) of 23 characters in five contexts, all sequences of up to 5 (6) pieces that exercise error slicing around multi-byte text, nesting up to depth 120 (400)",
        why="These are for-all-inputs statements; tests use hand-written documents that are almost all valid and ASCII.",
        mech=[("tokenizer", TOK), ("lexer", LEX), ("event parser", PARSE), ("CST parser", "crates/styx-cst/src/parser.rs"), ("tree builder", TREE)],
        technique="exhaustive enumeration of all inputs up to a bound on the real code, with invariants monitored on every execution (watchdog for termination, child process for aborts)",
        note="Exhaustive within the stated alphabets and lengths. Nesting deeper than the bound is outside it.",
    ),
    dict(
        id="C05", title="The syntax tree reads like the parser",
        statement="For every valid document the editor-facing syntax tree reports no error and, read through its typed accessors (entries, keys, values, sequence elements, tag payloads, doc comments, text of bare, quoted and raw scalars), it describes the same entries, in the same order and with the same contents, as the language reference.",
        over=["inputs"], quant="all token sequences of length up to 4-6 (thorough 5-7) over alphabets for structure, comments, attributes, tags, heredocs, escapes and raw scalars, in several contexts",
        why="There are two independent parsers; the editor works on one and the program on the other, and tests never compare them.",
        mech=[("CST parser", "crates/styx-cst/src/parser.rs"), ("typed accessors", "crates/styx-cst/src/ast.rs"), ("validation", "crates/styx-cst/src/validation.rs")],
        technique=EXH,
        note="Exhaustive within the stated alphabets and lengths. Heredoc contents are taken as one blob here (C01 covers them); documents the reference leaves open are not compared.",
    ),
    dict(
        id="C07", title="Formatting a file never changes what it means and settles at once",
        statement="Formatting source text keeps the meaning of every valid document and keeps all content tokens and comments of every document, in order; documents with syntax errors come back unchanged; the result ends with a newline; formatting the result again changes nothing.",
        over=["inputs"], quant="all token sequences of length up to 4-5 (thorough 5-6) and all sequences of up to 5 (7) whole lines, in several nesting contexts, two indentation styles",
        why="Layout decisions depend on combinations (comments, blank lines, single-element sequences, heredocs, nesting) that snapshot tests sample one at a time; idempotence and preservation quantify over all sources.",
        mech=[("CST formatter", "crates/styx-format/src/cst_format.rs")],
        technique="exhaustive enumeration of all sources up to a bound; the real formatter's output is re-parsed, re-tokenized and re-formatted, and compared",
        note="Meaning is what the library's own event parser reports (bound to the reference by C01-C03). Recorded finding: surplus values of an invalid entry are dropped (pinned by existing snapshots).",
    ),
    dict(
        id="C09", title="Written values read back as the same values",
        statement="Writing any document tree with any formatting options gives a valid document that reads back as the same tree (keys, values, tags, doc comments, order), with the same text written again from what was read; a single value written in braces reads back as that value.",
        over=["inputs"], quant="all trees of up to 6-7 nodes (thorough one more) over every kind of value, all strings of up to 3-4 characters or lines as keys, values and doc comments, six sets of options",
        why="Whether a value may be bare, inline, a heredoc or must be quoted depends on its text and on everything around it; tests pick a few dozen values.",
        mech=[("value writer", "crates/styx-format/src/writer.rs"), ("value formatter", "crates/styx-format/src/value_format.rs"), ("bare scalars", "crates/styx-format/src/scalar.rs")],
        technique="exhaustive enumeration of all document trees up to a size; each is written by the real code and read back by the reference parser and the real one",
        note="Exhaustive within the stated sizes. Recorded finding: a tag with a scalar payload is written as a tag with a sequence (pinned by an existing snapshot).",
    ),
    dict(
        id="C12", title="Schema validation gives the prescribed verdict, always the same",
        statement="Validating a document against a schema reports errors exactly when the schema reference says it does not conform, at the paths of the offending values, and warns about deprecated fields that are used. The verdict and the report do not depend on anything but the schema and the document, and validation always ends, also for types that refer to themselves.",
        over=["inputs"], quant="all schemas of depth 2 (constructors over 23 leaf types) against all small documents; all objects of up to three fields of 11 types with catch-alls and flattening against 225 sub-documents; all strings of up to 5 (6) number characters; all systems of three mutually referring types",
        why="Constraints combine (optional in deprecated in alias, enum payloads, unions, flattening, recursion); tests check one constructor at a time and cannot see hash-order dependence.",
        mech=[("validator", "crates/facet-styx/src/schema_validate.rs"), ("schema types", "crates/facet-styx/src/schema_types.rs")],
        technique=EXH,
        note="Exhaustive within the stated bounds; oracle written from docs/content/reference/spec/schema.md, three-valued (what it leaves open is only checked for determinism and termination). Recorded findings: literals, patterns and default checking are not implemented.",
    ),
    dict(
        id="C10", title="Rust values written with facet-styx read back as the same values",
        statement="For every Rust value facet-styx can write (structs, renamed, defaulted, flattened and metadata fields, options, maps, lists, tuples, newtypes, enums of every variant kind, strings, characters, numbers, booleans, units, doc-commented values), the text written is valid Styx and reading it as the same type gives the same value, for the document form with any formatting options, the compact form and a value written as an expression. A value that has no Styx form is refused, never written wrongly.",
        over=["inputs"], quant="all values of a family of some thirty recursive types up to a size bound (370,000 and more), every string over a hostile alphabet in every position, four sets of options and the compact form",
        why="Each serializer rule is local and has a test; a value exercises several at once (a tag inside a map inside an option, a doc comment inside a nested struct), and the tests sample few such combinations.",
        mech=[("facet serializer", "crates/facet-styx/src/serializer.rs"), ("facet parser", "crates/facet-styx/src/parser.rs"), ("writer", "crates/styx-format/src/writer.rs")],
        technique="exhaustive enumeration of all values up to a size; each is written by the real serializer, checked by the reference parser, and read back",
        note="Exhaustive within the stated types and sizes. Not judged: Option of Option and Option of unit, NaN, enums in flattened maps (not supported by the facet-format dependency).",
    ),
    dict(
        id="C11", title="Rust values written with serde_styx read back as the same values, in the same form as facet-styx",
        statement="For every Rust value serde_styx can write, the text written is valid Styx and reading it as the same type gives the same value, in document form with any options and in compact form; and for types that both libraries support, serde_styx and facet-styx write the same text.",
        over=["inputs"], quant="all values of a family of recursive types up to a size bound (270,000 and more), every string over a hostile alphabet in every position, four sets of options and the compact form",
        why="The serde serializer and deserializer are separate implementations of the same mapping; tests cover each with a handful of values and never compare them.",
        mech=[("serde serializer", "crates/serde_styx/src/ser.rs"), ("serde deserializer", "crates/serde_styx/src/de.rs"), ("writer", "crates/styx-format/src/writer.rs")],
        technique="exhaustive enumeration of all values up to a size; each is written by the real serializer, checked by the reference parser, read back, and compared with what facet-styx writes",
        note="Exhaustive within the stated types and sizes. Not judged: serde features that ask the format to guess a type (flatten, untagged).",
    ),
    dict(
        id="C14", title="Embedded schemas are found again, intact, whatever surrounds them",
        statement="Every schema text embedded with the styx-embed macros or blob functions is extracted from the binary exactly as it was, in order, whatever bytes come before, between and after (including look-alike magic, truncated or damaged blobs), from raw data and from ELF, Mach-O (also fat) and PE files. Extraction of any damaged data returns only texts that were embedded, never loses an undamaged blob, never fails otherwise, and uses time and memory in proportion to the data.",
        over=["inputs", "faults"], quant="all arrangements of up to 4 (thorough 5) of 16 pieces, every truncation, every byte changed to every value, all pairs of boundary values in header fields of nine object files, all texts of up to 5 (6) characters, all sizes up to 3,000 (70,000), all pairs of 24 ways to write a character in a Rust string literal",
        why="Extraction runs on binaries of others, where any byte may precede, follow or be damaged; the tests have one layout and one flipped byte.",
        mech=[("blobs and extraction", "crates/styx-embed/src/lib.rs"), ("macros", "crates/styx-embed-macros/src/lib.rs")],
        technique="exhaustive enumeration of layouts, truncation points and corruptions (fault injection) on the real extractor, memory requests monitored by the allocator",
        note="Exhaustive within the stated bounds. The object file reader (goblin) is compiled as in release builds, where its arithmetic on damaged headers wraps.",
    ),
    dict(
        id="C23", title="Rust values read from a document are what the document says",
        statement="Reading a document as a Rust type, with facet-styx or serde_styx, gives the value the document describes: scalars parsed as the type asks, @ and missing values as None, tags as enum variants, dotted paths (also several under one prefix) as nested objects, attributes as objects, heredocs and quoted text unescaped, unknown fields ignored. A document that is not valid, or does not describe a value of the type, is refused.",
        over=["inputs"], quant="all token sequences of length up to 4-5 (thorough 5-6) over alphabets for structure, attributes, tags, scalars, number limits and dotted-path histories, in several contexts, each read as 10 to 15 types by both libraries",
        why="This is what programs rely on; tests read a few dozen well-formed documents, not the ill-formed, half-matching or oddly-spelled ones.",
        mech=[("facet parser", "crates/facet-styx/src/parser.rs"), ("serde deserializer", "crates/serde_styx/src/de.rs")],
        technique=EXH,
        note="Exhaustive within the stated bounds. Not judged for facet-styx: leniencies of the facet-format dependency (unit read as a default scalar, empty sequence as a map, object as a tuple, payloads of unit variants). Documents the reference leaves open are not compared.",
    ),
    dict(
        id="C20", title="The C interface says what the document says, and owns its memory",
        statement="Through the C functions every document reads exactly as it does in Rust: accepted or refused alike, the same entries, keys, tags, texts and nesting, the same results of path and key lookups. Null and badly encoded arguments and indices beyond the end are answered, not executed. The document does not depend on the source buffer, texts handed out outlive their document, and freeing what was handed out releases everything, touching nothing else.",
        over=["inputs"], quant="all token sequences of length up to 4-5 (thorough 5-7) over seven alphabets, each document walked completely and looked up by 13 paths, under address and undefined-behaviour sanitizers and again with every allocation counted",
        why="Ownership and pointer validity must hold for every document shape; the C tests parse a handful of documents and never count what is released.",
        mech=[("C functions", "crates/styx-ffi/src/lib.rs"), ("C header", "crates/styx-ffi/include/styx.h"), ("path lookup", "crates/styx-tree/src/value.rs")],
        technique="exhaustive enumeration of all documents up to a bound, each walked through the C interface by a C program (sanitizers; counted allocations) and compared with the reference model",
        note="Exhaustive within the stated bounds. Texts with NUL cannot cross the interface and are not judged.",
    ),
    dict(
        id="C22", title="Values are found, changed and joined as the document tree says",
        statement="Looking up any path in a document or value finds the value the tree has there and nothing else, reading and writing alike; entries spelt with sibling dotted paths count as one object. After any history of insertions, replacements, pushes and retagging the tree is what those operations describe: order kept, each key once, everything else untouched. Joining dotted paths loses, duplicates and reorders nothing.",
        over=["histories", "inputs"], quant="all histories of up to 4 (thorough 5) of 156 operations from four documents, states identified up to equality; all documents of up to 5-6 (6-7) tokens in five contexts or 5 (6) lines, looked up by all 156 paths of up to 3 segments",
        why="Correctness is about sequences of updates and about every combination of path and shape; tests look up a few names in one document.",
        mech=[("values", "crates/styx-tree/src/value.rs"), ("documents", "crates/styx-tree/src/lib.rs")],
        technique="explicit-state exploration of update histories: every transition executed on the real tree and on a model, states and all lookups compared after each",
        note="Exhaustive within the stated bounds. Paths through keys that contain `.` or `[` cannot be written and are not judged.",
    ),
    dict(
        id="C19", title="The command line tool answers, refuses and writes as documented",
        statement="styx FILE prints the formatted document, --json-out its JSON (sibling dotted paths joined), tree its tree; --validate accepts exactly the documents their declared or given schema accepts. Exit codes tell success, syntax or usage, validation and input/output errors apart, failures come with a message and no output. A refused or failed command changes no file; only the requested destination is ever written. When --in-place is interrupted or fails at any point, the file has its old or its new content, never a part; success is never reported for an incomplete file or output.",
        over=["inputs", "crashpoints", "faults"], quant="options: every combination of 10 schema declarations, 6 bodies, 5 inputs, 13 destinations (thorough: also all pairs), --compact, --validate and 5 schema options, in a fresh directory compared afterwards; faults: every file or output operation of 10 commands on 4 documents, each killed before, torn after n bytes, cut short after n bytes, or failing with 5 errors; all documents of up to 3 (4) tokens, lines or text pieces",
        why="The file a user edits in place is at stake at every instant of the write, and option combinations multiply; the tests run a few dozen commands and inject no fault.",
        mech=[("file mode", "crates/styx-cli/src/main.rs"), ("formatter", "crates/styx-format/src/cst_format.rs")],
        technique="exhaustive enumeration of option combinations, and of every crash point, torn write and error of every file operation, executed on the real program under an LD_PRELOAD fault injector",
        note="Exhaustive within the stated bounds. A crash is the death of the process, not of the machine. Which destination wins when several are asked for is unspecified; then only unrelated files are judged. The JSON of tagged keys is not judged, nor are the subcommands that use the network (diff, publish).",
    ),
    dict(
        id="C13", title="The schema generated for a type describes exactly its documents",
        statement="For every Rust type, the generated schema is itself a readable Styx document saying what the generator built (metadata, doc comments and defaults included), and every type it refers to is defined, even when different types share a name. Every document written from a value of the type is accepted by that schema, as generated and as read back; documents with unknown fields, lacking required ones, or of a structurally different shape that the type cannot read are refused.",
        over=["programs", "inputs"], quant="several hundred types built from all nestings of up to three containers, enums, attributes, defaults, flattening, recursion and same-named generics, each with 4-99 (thorough up to 60 per nesting) values; all short texts; all metadata combinations; 70 types against every document of the others",
        why="Types compose without limit; the tests generate schemas for about fifteen hand-picked structs and never validate a value of the type against them.",
        mech=[("schema generation", "crates/facet-styx/src/schema_gen.rs"), ("schema types", "crates/facet-styx/src/schema_types.rs"), ("validator", "crates/facet-styx/src/schema_validate.rs")],
        technique="exhaustive enumeration of composed types and their values up to a bound: each schema generated, written, re-read and executed by the validator against every document of the type and of other types",
        note="Exhaustive within the stated bounds. Not judged: integer ranges and text patterns (schemas say @int, @string), non-finite numbers, unit or tagged keys of maps, documents with a tag directly in front of a tag (one known finding).",
    ),
    dict(
        id="C18", title="The language server follows the editor through every interleaving",
        statement="Whatever a client opens, changes, closes and asks, however the server's handlers interleave and however slowly the client takes its messages: a request is answered from the newest text received before it, a closed document stays closed, diagnostics always belong to the version they name and never go back to an older one, and once all is quiet the client shows those of the newest text of every open document and none for closed ones. Every handler finishes and every request is answered.",
        over=["schedules", "histories"], quant="all histories of up to 4 (thorough 5) messages about two documents, all schedules of each: message delivery (four handlers at a time), every order of continuing handlers, every moment at which the client takes a message; 11 kinds of request after every change among 7 texts",
        why="The outcome depends on when handlers are suspended; the tests send one message at a time to an idle server.",
        mech=[("document map and handlers", "crates/styx-lsp/src/server.rs")],
        technique="stateless model checking of the real server: every handler is polled by hand and all schedules are enumerated, compared with a server that saw only the newest text",
        note="Exhaustive within the stated bounds. Assumes the client keeps to the protocol (no change of a document that is not open) and tower-lsp's guarantee that handlers are first polled in order of arrival.",
    ),
    dict(
        id="C25", title="Extensions run only when the user allowed exactly their command, and never block the server",
        statement="The language server starts a schema's extension program exactly when the user's configuration, or an 'allow' command given in the session, lists exactly its command (not a prefix of it), and starts nothing otherwise, whatever documents are opened, changed and closed and even if the configuration cannot be read. While permission is missing the document shows exactly one diagnostic naming the command, and the quick fix offered allows exactly that; neither is shown once allowed or when the document is closed. A program that is no extension (it exits, closes its pipes, stays silent or talks nonsense) never keeps a message from being handled and does not keep running once the server gave it up.",
        over=["histories", "inputs"], quant="all user configurations with up to 2 of 6 commands (prefixes of each other, absolute paths, the empty string) or unreadable, all histories of up to 2 (thorough 3) of 19 events (open/change/close of two documents with 5 schemas, allow of 6 commands); 8 kinds of misbehaving programs x all histories of up to 2 (thorough 4) overlapping messages about three documents",
        why="A test tries one allowed and one forbidden command with a well-behaved program; what matters is every other configuration, order of events and misbehaviour.",
        mech=[("extension manager", "crates/styx-lsp/src/extensions.rs"), ("user configuration", "crates/styx-lsp/src/config.rs"), ("handlers", "crates/styx-lsp/src/server.rs")],
        technique="explicit-state enumeration of all bounded histories on the real server process with recording stand-ins for extension programs, compared with a model of what is allowed and shown",
        note="Exhaustive within the stated bounds. The pinned vox release cannot complete a handshake (its own echo example fails), so running extensions cannot be observed; arguments of a launch command are not restricted by permissions.",
    ),
    dict(
        id="C24", title="What the language server keeps on disk survives crashes, failures and other servers",
        statement="A schema the language server caches is in the cache whole, or not at all: the file it names has exactly the content asked for, whatever was there before (cut short, other content, a directory), at whatever system operation the process is killed or an operation fails, and whatever another server does at the same time; no document can name a file outside the cache directory; clearing the cache removes schemas and nothing else. The user's configuration is always readable and never loses a command: after a crash, an I/O error or two servers allowing commands at once it contains all that was there and everything whose 'allow' finished, a configuration that cannot be read is left alone, and any list of commands reads back as it was saved. What was interrupted can be done again.",
        over=["crash points", "schedules", "inputs"], quant="8 operations x 9 initial states x every system call as fault point x 10 (thorough 124) faults (kill, torn, short and failing operations), each retried; 12 pairs of concurrent server processes, all interleavings of their system calls with at most 2 (thorough 3) departures from running on, one of which may be a crash; all cache names of up to 3 (4) components from 11 parts; all commands of up to 2 of 27 characters and pairs of commands",
        why="What is lost depends on the exact system call at which a crash, error or other process comes in between; tests write once to an empty directory.",
        mech=[("schema cache", "crates/styx-lsp/src/cache.rs"), ("user configuration", "crates/styx-lsp/src/config.rs")],
        technique="exhaustive fault injection at every system call of the real process, and stateless exploration of all interleavings of two real processes under a controlled scheduler (LD_PRELOAD lockstep) up to a preemption bound",
        note="Exhaustive within the stated bounds. Crash means the process dies; loss of unsynced pages at power failure is not modelled. Rewriting the configuration drops the user's comments (not judged).",
    ),
    dict(
        id="C17", title="Language server positions are the document's, and its edits do what they say",
        statement="Every position and range the language server gives or takes means the same place as in the protocol (lines end with \\n, \\r\\n or \\r, characters are UTF-16 code units): offsets and positions convert back and forth for the server and its extensions, every range in diagnostics, outline, highlighting, definitions, references, links, hints, completions and actions lies in the document it is about, no request about any text panics or fails. The outline lists exactly the document's entries with their names and keys; semantic tokens and terminal highlighting show every key, value, tag and comment as what it is, line by line without overlap; go-to-definition and references on a field lead to that field. Formatting gives exactly the formatter's output; a newline only changes that line's indentation, to the number of open brackets, and never a value. Every offered code action yields a document that parses and differs only as promised: filling adds exactly the missing fields to the object under the cursor, renaming changes only that key, reordering sorts the entries as the schema lists them and keeps every entry and comment, declaring a schema adds the declaration and nothing else.",
        over=["inputs", "cursor positions"], quant="all texts of up to 5 (thorough 7) of 8 characters incl. non-BMP and all line ends x every offset and position; all texts of up to 4 (5) of 20 pieces x all requests at every token; all documents of up to 2 entries from 13 x 8 separators x 5 heads, and of nested objects with up to 2 (3) entries from 6 x 5 separators in 6 surroundings, with a schema, x all code actions at every token, every edit applied",
        why="Positions go wrong only for particular characters before them and edits only for particular layouts; tests place a cursor in a handful of ASCII documents and look at whether an action is offered, not at what its edit makes of the document.",
        mech=[("requests, positions and edits", "crates/styx-lsp/src/server.rs"), ("highlighting", "crates/styx-lsp/src/semantic_tokens.rs"), ("fields of the schema", "crates/styx-lsp/src/schema_validation.rs"), ("host for extensions", "crates/styx-lsp/src/extensions.rs"), ("positions for extensions", "crates/styx-lsp-ext/src/lib.rs")],
        technique="bounded-exhaustive enumeration of documents and cursor positions, run through the real server's requests, each answer compared with a second reading of the protocol, the lexer and the tree before and after the edit",
        note="Exhaustive within the stated bounds. Whether a filled-in placeholder is a valid value and the ranking of completions are not judged.",
    ),
    dict(
        id="C06", title="Diagnostics point at the place of the error",
        statement="Every parse, deserialization and validation error is reported at the place that is wrong, whatever precedes it and however the document is laid out: the reported span lies on character boundaries, covers exactly the unclosed bracket, the invalid escape, the comma, the doc comment, the unknown key, the value of the wrong type, the unknown variant (for a value that cannot be parsed while deserializing: lies in its entry), both keys for a duplicate, and each of several faults is reported by validation once. The rendered report names the line and the column (in characters) of the span, shows that line and underlines exactly the span's columns, and contains no colour codes when NO_COLOR is set. Rendering never panics.",
        over=["inputs"], quant="all texts of up to 5 (thorough 6) of 18 pieces (non-ASCII, CRLF, brackets, unterminated quotes, bad escapes, doc comments); all strings of up to 3 (4) of 17 valid and invalid escapes in six places; a document of a type with nested struct, sequence, enum and map with every set of up to 2 (3) of 39 faults x 5 heads x 6 layouts x 5 names x 2 variants",
        why="Whether a position is right depends on every character before it and on what else is wrong; the snapshot tests render a few ASCII documents with one error each.",
        mech=[("parse error reports", "crates/styx-tree/src/diagnostic.rs"), ("deserialization error reports", "crates/facet-styx/src/error.rs"), ("validation errors", "crates/facet-styx/src/schema_error.rs"), ("spans of events", "crates/styx-parse/src/parser.rs"), ("validator", "crates/facet-styx/src/schema_validate.rs"), ("spans while deserializing", "crates/facet-styx/src/parser.rs")],
        technique="bounded-exhaustive enumeration of texts, and of all sets of faults injected into a document in all layouts; every error and its rendering compared with where the fault was put",
        note="Exhaustive within the stated bounds. facet-format reports an unparsable value at the event before it (its key), which a snapshot test pins; where a missing field is reported is not judged, only that it is.",
    ),
    dict(
        id="C21", title="Go generated from a schema compiles, has the schema's shape and enforces its bounds",
        statement="For every schema, `styx @gen go` (styx_gen_go::generate) writes the same files every time, and they compile, whatever the names of types, fields and variants: names become exported identifiers that do not clash. The generated types have the schema's shape: every field of an object is one struct field, of the Go type of the field's type, tagged with the field's own name and whether it is optional; every named type is defined and references lead to it; an enum has a constant with the name of each variant. A generated Validate reports exactly the fields whose string length (in characters), integer or float is outside the bounds in the schema, with the bound, and accepts all others, optional fields that are nil included.",
        over=["inputs"], quant="all types of depth up to 2 (thorough 3) in four positions over four referents; all pairs of 38 field or variant names in five uses; all pairs of 15 type names with six bodies each; every character of the basic plane (thorough also planes 1 and 2) as a name; all combinations of bounds from 5 lengths, 8 integers and 7 floats under five wrappers with boundary values, and pairs of fields",
        why="Names come from the configuration language and clash only after conversion to Go identifiers, and hash maps give the code another order in each process; the crate has hardly any tests.",
        mech=[("generator", "crates/styx-gen-go/src/lib.rs"), ("mapping of types and names", "crates/styx-gen-go/src/types.rs")],
        technique="exhaustive enumeration of schemas on the real generator; Go's own type checker decides what compiles and writes out the resulting types, compared with a reference mapping; the generated Validate is compiled and run on all enumerated values",
        note="Exhaustive within the stated bounds. Not judged: field names with a comma (tags use it as separator), aliases that only lead to each other, structs that contain themselves without an optional, the item types of tuples, validation below the first level, and filling in values (a TODO in the generated Parse).",
    ),
    dict(
        id="C15", title="The Go, JavaScript and Python implementations read a document as the reference does",
        statement="Every document that the reference implementation (styx-tree) accepts is accepted by the implementations in Go, JavaScript and Python, which read the same tree from it: the same entries in the same order with the same keys, tags, kinds of scalars and texts, sequences and objects, each with the same span; and every document the reference refuses they refuse with a parse error, never by crashing or running for ever. On the documents of the compliance suite also the messages and spans of the errors are the same.",
        over=["inputs"], quant="50 values in 34 places, all pairs of them in 5; all pairs (thorough triples) of 10 keys with 5 bodies, 4 separators, 5 surroundings; all texts of up to 4 (5) of 27 pieces; quoted strings, escapes, raw strings, heredocs and their openings of up to 3 or 4 (4 to 6) pieces; all pairs of ASCII characters as values, keys and tags; every code point below U+3000 (all) in seven places and as an escape; every document of the compliance suite, whole and with any one character less",
        why="The implementations share no code; the compliance suite compares them on 94 documents.",
        mech=[("Go", "implementations/styx-go/parser.go"), ("Go lexer", "implementations/styx-go/lexer.go"), ("JavaScript", "implementations/styx-js/src/parser.ts"), ("JavaScript lexer", "implementations/styx-js/src/lexer.ts"), ("Python", "implementations/styx-py/styx/parser.py"), ("Python lexer", "implementations/styx-py/styx/lexer.py"), ("reference", "crates/styx-parse/src/parser.rs")],
        technique="bounded-exhaustive enumeration of documents; the four real implementations run side by side and every answer is compared",
        note="Exhaustive within the stated bounds. Left out as unsettled: a tag directly after a tag, and text after a heredoc's delimiter on its line, which only the reference takes. The Swift implementation needs a compiler that is not installed here. Spans of payloads in tagged keys are not compared.",
    ),
    dict(
        id="C26", title="What the language server says about a place of a document is what the schema says about it",
        statement="At every key of a document with a schema, hover shows the doc comment and the type that the schema gives to exactly this field, reached through the types on the way to it (optional, default, deprecated, named, sequence, tuple, map, catch-all, enum by the document's tag, flattened and union types), never those of a field of the same name elsewhere, with the path and a link to its place in the schema; go-to-definition leads to that place; and completion in every object, including objects in sequences, offers exactly the fields that its type has, flattened ones included, and the object lacks, with their types. Schemas whose types refer to themselves are answered too. References at a field lead exactly to its place in the schema and in every open document of this schema (not of others) that has it, as their texts are now; from the schema, definition leads to one of these.",
        over=["inputs"], quant="all chains of up to 3 (thorough 4) of 15 type constructors around an object x 8 ways to write the document, every key and every object asked, with fields of the same names in types beside the path; all pairs of 20 bodies of two types that refer to themselves and each other x 6 documents; all 3 open documents of 15 forms each, of two schemas or none, after a change of one, asked at every field of documents and schemas",
        why="The answer depends on how type constructors are nested and on how the document writes the path; tests ask at a few places of two or three schemas.",
        mech=[("lookup of fields", "crates/styx-lsp/src/server.rs"), ("objects and their fields", "crates/styx-lsp/src/schema_validation.rs")],
        technique="bounded-exhaustive enumeration of schemas with documents, run through the real server's requests; each answer compared with what the construction put into the schema",
        note="Exhaustive within the stated bounds. Hover at items of sequences (no key), ranking of completions and what an extension adds are not judged.",
    ),
]
