//! C06: a diagnostic points at the place of the error, whatever surrounds it.
use facet::Facet;
use facet_styx::RenderError;
use mc_engine::*;
use styx_parse::{EventKind, ParseErrorKind, Parser};
use styx_tree::ParseError;

const FILE: &str = "f.styx";

/// Line and column (from 1, in characters) of a byte offset.
fn place(src: &str, at: usize) -> (usize, usize) {
    let start = src[..at].rfind('\n').map_or(0, |i| i + 1);
    (src[..at].matches('\n').count() + 1, src[start..at].chars().count() + 1)
}
fn width(c: char) -> usize {
    if c == '😀' { 2 } else { 1 }
}
/// The line a byte offset is on, without its end, and where it starts.
fn line_at(src: &str, at: usize) -> (usize, &str) {
    let start = src[..at].rfind('\n').map_or(0, |i| i + 1);
    let end = src[start..].find('\n').map_or(src.len(), |i| start + i);
    (start, src[start..end].trim_end_matches('\r'))
}

/// What is wrong with a rendered report that should mark `spans`, the first of which is where
/// the error is.
fn judge(out: &str, src: &str, spans: &[(usize, usize)]) -> Result<(), String> {
    if out.contains('\x1b') {
        return Err("coloured in spite of NO_COLOR".into());
    }
    let (l, c) = place(src, spans[0].0);
    let head = format!("[ {FILE}:{l}:{c} ]");
    if out.matches(&format!("[ {FILE}:")).count() != 1 || !out.contains(&head) {
        return Err(format!("does not say {head}"));
    }
    let narrow = spans.iter().all(|s| {
        let (start, line) = line_at(src, s.0);
        s.0 < s.1 && s.1 <= start + line.len()
    });
    // each line it marks is shown, and marked at just the right columns
    let rows: Vec<&str> = out.lines().collect();
    for s in spans {
        let (start, line) = line_at(src, s.0);
        let no = place(src, s.0).0;
        let Some(r) = rows.iter().position(|r| {
            r.split_once('│').is_some_and(|(n, t)| {
                n.trim() == no.to_string() && t.trim_end().ends_with(line.trim_end())
            })
        }) else {
            return Err(format!("does not show line {no}"));
        };
        if !narrow {
            continue;
        }
        let col = |at: usize| line[..at - start].chars().map(width).sum::<usize>();
        let mut want: Vec<usize> = spans
            .iter()
            .filter(|t| line_at(src, t.0).0 == start)
            .flat_map(|t| col(t.0)..col(t.1))
            .collect();
        want.sort();
        want.dedup();
        let under = rows.get(r + 1).and_then(|r| r.split_once('│')).map_or("", |(_, t)| t);
        let got: Vec<usize> = under
            .chars()
            .skip(1)
            .enumerate()
            .filter(|(_, c)| matches!(c, '─' | '┬'))
            .map(|(i, _)| i)
            .collect();
        if got != want {
            return Err(format!("marks columns {got:?} of line {no} for {want:?}"));
        }
    }
    Ok(())
}

/// What a parse error must point at.
fn about(kind: &ParseErrorKind, src: &str, (a, b): (usize, usize)) -> Result<(), String> {
    let text = &src[a..b];
    let ok = match kind {
        ParseErrorKind::UnclosedObject => text == "{",
        ParseErrorKind::UnclosedSequence => text == "(",
        ParseErrorKind::InvalidEscape(seq) => text == seq && text.starts_with('\\'),
        ParseErrorKind::CommaInSequence => text == ",",
        ParseErrorKind::MissingWhitespaceBeforeBlock => text == "{" || text == "(",
        ParseErrorKind::DanglingDocComment => text.starts_with("///"),
        ParseErrorKind::InvalidTagName => text.contains('@'),
        ParseErrorKind::DuplicateKey { original } => {
            let o = &src[original.start as usize..original.end as usize];
            (original.end as usize) <= a && key(o) == key(text)
        }
        ParseErrorKind::ReopenedPath { closed_path: p }
        | ParseErrorKind::NestIntoTerminal { terminal_path: p } => {
            text == p.join(".") || text.starts_with(&format!("{}.", p.join("."))) || text.contains('"')
        }
        ParseErrorKind::UnexpectedToken
        | ParseErrorKind::TooManyAtoms
        | ParseErrorKind::TrailingContent
        | ParseErrorKind::InvalidKey => !text.trim().is_empty(),
        _ => true,
    };
    match ok {
        true => Ok(()),
        false => Err(format!("points at {text:?}")),
    }
}
/// The key some text is read as.
fn key(text: &str) -> Option<String> {
    let evs = Parser::new(text).parse_to_vec();
    evs.iter().find_map(|e| match &e.kind {
        EventKind::Key { tag, payload, .. } => Some(format!("{tag:?} {payload:?}")),
        _ => None,
    })
}

fn texts(ctx: &Ctx) {
    let pieces = [
        "a", "é", "b 1", " ", "\n", "\r\n", "{", "}", "(", ")", ",", "\"", "\\q", "😀", "@", "/// c\n", ".", "= ",
    ];
    let n = if ctx.thorough() { 6 } else { 5 };
    let seqs = Seqs::new(pieces.len(), 0, n);
    ctx.space(
        "parse errors of all texts",
        serde_json::json!({"pieces": pieces, "max_pieces": n}),
        seqs.total(),
        |i| seqs.concat(i, &pieces),
        |i, l| {
            let src = seqs.concat(i, &pieces);
            parse_errors(&src, l);
        },
    );
}

/// Every invalid escape in a quoted string is reported where it is, and nothing else.
fn escapes(ctx: &Ctx) {
    // and how much of it the report names
    let pieces = [
        ("é", false), ("x", false), ("}", false), ("\\n", false), ("\\\"", false), ("\\\\", false), ("\\u{41}", false), ("\\u{1F600}", false), ("\\u00e9", false),
        ("\\q", true), ("\\u{zz}", true), ("\\u{}", true), ("\\u12", true), ("\\u", true), ("\\é", true), ("\\😀", true), ("\\u{1_1}", true),
    ];
    let texts: Vec<&str> = pieces.iter().map(|p| p.0).collect();
    let around = [("k \"", "\""), ("\"", "\" v"), ("é 1\nk @t\"", "\""), ("k (\"", "\" a)"), ("k {a \"", "\"}"), ("k x>\"", "\"")];
    let n = if ctx.thorough() { 4 } else { 3 };
    let seqs = Seqs::new(pieces.len(), 1, n);
    let doc = |i: u64| {
        let (b, a) = around[(i % 6) as usize];
        format!("{b}{}{a}", seqs.concat(i / 6, &texts))
    };
    ctx.space(
        "escapes",
        serde_json::json!({"pieces": texts, "max_pieces": n, "around": around.map(|a| format!("{}…{}", a.0, a.1))}),
        seqs.total() * 6,
        doc,
        |i, l| {
            let src = doc(i);
            let mut v = vec![];
            seqs.decode(i / 6, &mut v);
            let mut at = around[(i % 6) as usize].0.len();
            let mut want = vec![];
            for (j, &p) in v.iter().enumerate() {
                let next = v.get(j + 1).map_or("", |&q| pieces[q].0);
                if pieces[p].0 == "\\u" && next == "}" {
                    return; // not settled how much of it is one
                }
                if pieces[p].1 {
                    want.push((at, pieces[p].0));
                }
                at += pieces[p].0.len();
            }
            let evs = Parser::new(&src).parse_to_vec();
            let mut errs: Vec<_> = evs.iter().filter_map(|e| if let EventKind::Error { kind } = &e.kind { Some((e.span, kind)) } else { None }).collect();
            errs.sort_by_key(|e| e.0.start);
            l.exec(1);
            l.outcome(&format!("{errs:?}"));
            l.class(if want.is_empty() { "valid" } else { "invalid" });
            let ok = errs.len() == want.len()
                && errs.iter().zip(&want).all(|((span, kind), (at, text))| {
                    matches!(kind, ParseErrorKind::InvalidEscape(s) if s == text) && span.start as usize == *at && span.end as usize == at + text.len()
                });
            if !ok {
                l.violation(viol(format!("{src:?}"), format!("errors {errs:?}, not at {want:?}")));
            }
        },
    );
}

fn parse_errors(src: &str, l: &mut Local) {
    let evs = Parser::new(src).parse_to_vec();
    let mut n = 0;
    let mut invalid_keys = false;
    for e in &evs {
        let EventKind::Error { kind } = &e.kind else { continue };
        n += 1;
        let span = (e.span.start as usize, e.span.end as usize);
        if src.get(span.0..span.1).is_none() {
            l.violation(viol(format!("{src:?}"), format!("{kind:?} has the span {span:?}")));
            continue;
        }
        // what is no key at all is not compared with others
        let same_key = matches!(kind, ParseErrorKind::DuplicateKey { .. }) && invalid_keys;
        invalid_keys |= matches!(kind, ParseErrorKind::InvalidKey);
        if let Err(w) = about(kind, src, span)
            && !same_key
        {
            l.violation(viol(format!("{src:?}"), format!("{kind:?} {w}")));
        }
        let mut spans = vec![span];
        if let ParseErrorKind::DuplicateKey { original } = kind {
            spans.push((original.start as usize, original.end as usize));
        }
        let out = ParseError::new(kind.clone(), e.span).render(FILE, src);
        if let Err(w) = judge(&out, src, &spans) {
            l.violation(viol(format!("{src:?}"), format!("{kind:?} at {span:?}: the report {w}\n{out}")));
        }
        l.exec(1);
        l.outcome(&(format!("{kind:?}"), span));
    }
    l.class(if n > 0 { "with errors" } else { "without" });
}


#[derive(Facet, Debug)]
#[facet(deny_unknown_fields)]
#[allow(dead_code)]
struct Doc {
    name: String,
    port: u16,
    tls: Tls,
    tags: Vec<u8>,
    mode: Mode,
    opts: std::collections::BTreeMap<String, bool>,
    last: i64,
}
#[derive(Facet, Debug)]
#[facet(deny_unknown_fields)]
#[allow(dead_code)]
struct Tls {
    cert: String,
    depth: u8,
}
#[derive(Facet, Debug)]
#[repr(u8)]
#[facet(rename_all = "kebab-case")]
#[allow(dead_code)]
enum Mode {
    Fast,
    Slow { level: u8 },
}
const SCHEMA: &str = r#"meta {id "x"}
schema {
    @ @object{
        name @string
        port @int{min 0, max 65535}
        tls @object{cert @string, depth @int{min 0, max 255}}
        tags @seq(@int{min 0, max 255})
        mode @enum{fast @unit, slow @object{level @int{min 0, max 255}}}
        opts @map(@string @bool)
        last @int
    }
}
"#;

/// The places of the template: its keys and values.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Name,
    PortKey,
    Port,
    Tls,
    CertKey,
    Cert,
    DepthKey,
    Depth,
    TagsKey,
    Tags,
    Tag0,
    Tag1,
    ModeKey,
    Mode,
    Level,
    OptsKey,
    Opts,
    Opt0,
    Opt1,
    LastKey,
    Last,
}
use At::*;

/// What is put there instead, and what that is.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    /// A value of another type; reported there.
    Wrong,
    /// A key the type does not have; reported there, and a missing field in the object.
    Unknown,
    /// A variant the type does not have.
    Variant,
    /// A variant with a payload of another type.
    Payload,
}
const FAULTS: &[(At, Fault, &str)] = &[
    (Name, Fault::Wrong, "(é)"),
    (Name, Fault::Wrong, "{a é}"),
    (Port, Fault::Wrong, "é"),
    (Port, Fault::Wrong, "\"😀\""),
    (Port, Fault::Wrong, "70000"),
    (Port, Fault::Wrong, "(1)"),
    (Port, Fault::Wrong, "{}"),
    (PortKey, Fault::Unknown, "pört"),
    (PortKey, Fault::Unknown, "\"p 😀\""),
    (Tls, Fault::Wrong, "é"),
    (Tls, Fault::Wrong, "(é)"),
    (CertKey, Fault::Unknown, "cërt"),
    (Cert, Fault::Wrong, "(é 2)"),
    (DepthKey, Fault::Unknown, "x"),
    (Depth, Fault::Wrong, "é"),
    (Depth, Fault::Wrong, "256"),
    (Depth, Fault::Wrong, "-1"),
    (Tags, Fault::Wrong, "é"),
    (Tags, Fault::Wrong, "{a é}"),
    (Tag0, Fault::Wrong, "é"),
    (Tag0, Fault::Wrong, "{a 1}"),
    (Tag1, Fault::Wrong, "\"😀\""),
    (Tag1, Fault::Wrong, "(1)"),
    (Mode, Fault::Variant, "@high"),
    (Mode, Fault::Variant, "@nope{a é}"),
    (Mode, Fault::Wrong, "é"),
    (Mode, Fault::Payload, "@slow(é)"),
    (Mode, Fault::Payload, "@slow\"é\""),
    (Mode, Fault::Wrong, "@slow"),
    (Level, Fault::Wrong, "é"),
    (Level, Fault::Wrong, "r#\"😀\"#"),
    (Opts, Fault::Wrong, "é"),
    (Opt0, Fault::Wrong, "é"),
    (Opt0, Fault::Wrong, "(true)"),
    (Opt1, Fault::Wrong, "😀"),
    (LastKey, Fault::Unknown, "é"),
    (Last, Fault::Wrong, "é"),
    (Last, Fault::Wrong, "1.5"),
    (Last, Fault::Wrong, "{}"),
];

/// The layout: what comes first, between entries, around and inside objects and sequences.
const HEADS: &[&str] = &["", "// ünïcode 😀\n", "\n", "/// dök\n", "\r\n\r\n"];
const LAYOUTS: &[[&str; 5]] = &[
    // entries, after an opening brace, between entries in braces, before a closing one, in sequences
    ["\n", "", ", ", "", " "],
    ["\r\n", " ", ", ", " ", "  "],
    ["\n", "\n  ", "\n  ", "\n", "\n"],
    ["\r\n", "\r\n  ", "\r\n  // é\r\n  ", "\r\n", "\r\n"],
    ["\n// é\n", "\n  /// é\n  ", "\n\n  ", "\n", " "],
    [", ", "", ",", "", " "],
];
const NAMES: &[&str] = &["a", "é", "\"a😀\"", "<<E\n é\n E", "\"\\u{e9}\""];

/// The document with these faults, and where its places are.
fn write(head: usize, lay: usize, name: usize, mode: usize, faults: &[usize]) -> (String, Vec<(At, usize, usize)>) {
    let mut s = HEADS[head].to_string();
    let [nl, open, sep, close, gap] = LAYOUTS[lay];
    let mut at: Vec<(At, usize, usize)> = vec![];
    let put = |s: &mut String, at: &mut Vec<(At, usize, usize)>, a: At, body: &mut dyn FnMut(&mut String, &mut Vec<(At, usize, usize)>)| {
        let start = s.len();
        match faults.iter().find(|f| FAULTS[**f].0 == a) {
            Some(f) => s.push_str(FAULTS[*f].2),
            None => body(s, at),
        }
        at.push((a, start, s.len()));
    };
    macro_rules! put {
        ($a:expr, $t:expr) => { put(&mut s, &mut at, $a, &mut |s, _| s.push_str($t)) };
    }
    let _ = put;
    s.push_str("name ");
    put!(Name, NAMES[name]);
    s.push_str(nl);
    put!(PortKey, "port");
    s.push(' ');
    put!(Port, "1");
    s.push_str(nl);
    s.push_str("tls ");
    put(&mut s, &mut at, Tls, &mut |s, at| {
        s.push('{');
        s.push_str(open);
        put(s, at, CertKey, &mut |s, _| s.push_str("cert"));
        s.push(' ');
        put(s, at, Cert, &mut |s, _| s.push_str("ç"));
        s.push_str(sep);
        put(s, at, DepthKey, &mut |s, _| s.push_str("depth"));
        s.push(' ');
        put(s, at, Depth, &mut |s, _| s.push('2'));
        s.push_str(close);
        s.push('}');
    });
    s.push_str(nl);
    put!(TagsKey, "tags");
    s.push(' ');
    put(&mut s, &mut at, Tags, &mut |s, at| {
        s.push('(');
        put(s, at, Tag0, &mut |s, _| s.push('1'));
        s.push_str(gap);
        put(s, at, Tag1, &mut |s, _| s.push('2'));
        s.push(')');
    });
    s.push_str(nl);
    put!(ModeKey, "mode");
    s.push(' ');
    put(&mut s, &mut at, Mode, &mut |s, at| match mode {
        0 => s.push_str("@fast"),
        _ => {
            s.push_str("@slow{");
            s.push_str(open);
            s.push_str("level ");
            put(s, at, Level, &mut |s, _| s.push('3'));
            s.push_str(close);
            s.push('}');
        }
    });
    s.push_str(nl);
    put!(OptsKey, "opts");
    s.push(' ');
    put(&mut s, &mut at, Opts, &mut |s, at| {
        s.push('{');
        s.push_str(open);
        s.push_str("ö ");
        put(s, at, Opt0, &mut |s, _| s.push_str("true"));
        s.push_str(sep);
        s.push_str("\"p q\" ");
        put(s, at, Opt1, &mut |s, _| s.push_str("false"));
        s.push_str(close);
        s.push('}');
    });
    s.push_str(nl);
    put!(LastKey, "last");
    s.push(' ');
    put!(Last, "4");
    (s, at)
}

/// How far before a value its key starts.
fn before(a: At) -> usize {
    match a {
        PortKey | CertKey | DepthKey | TagsKey | ModeKey | OptsKey | LastKey => 0,
        Opt0 => "ö ".len(),
        Opt1 => "\"p q\" ".len(),
        Tls => "tls ".len(),
        Depth | Level => "depth ".len(),
        _ => "name ".len(),
    }
}

fn faults(ctx: &Ctx) {
    let schema: facet_styx::SchemaFile = facet_styx::from_str(SCHEMA).unwrap();
    let n = FAULTS.len();
    // a few faults at different places, neither inside the other
    let apart = |a: usize, b: usize| {
        let value_of = |k: At| match k {
            PortKey => Some(Port),
            CertKey => Some(Cert),
            DepthKey => Some(Depth),
            LastKey => Some(Last),
            _ => None,
        };
        let (x, y) = (FAULTS[a].0, FAULTS[b].0);
        x != y && value_of(x) != Some(y) && value_of(y) != Some(x)
    };
    let at_once = if ctx.thorough() { 3 } else { 2 };
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..at_once {
        let to = sets.len();
        for i in from..to {
            for f in sets[i].last().map_or(0, |l| l + 1)..n {
                if sets[i].iter().all(|g| apart(*g, f)) {
                    let mut s = sets[i].clone();
                    s.push(f);
                    sets.push(s);
                }
            }
        }
        from = to;
    }
    let dims = Product(vec![sets.len() as u64, HEADS.len() as u64, LAYOUTS.len() as u64, NAMES.len() as u64, 2]);
    let make = |i: u64| {
        let d = dims.decode(i);
        let (src, at) = write(d[1], d[2], d[3], d[4], &sets[d[0]]);
        // faults inside a replaced value are not there
        let here: Vec<(At, Fault, usize, usize)> = sets[d[0]]
            .iter()
            .filter_map(|f| {
                let f = &FAULTS[*f];
                at.iter().find(|a| a.0 == f.0).map(|a| (f.0, f.1, a.1, a.2))
            })
            .collect();
        (src, at, here, sets[d[0]].len(), d[3])
    };
    ctx.space(
        "faults in documents of a type",
        serde_json::json!({"faults": n, "at_once": at_once, "heads": HEADS.len(), "layouts": LAYOUTS.len(), "names": NAMES.len()}),
        dims.total(),
        |i| make(i).0,
        |i, l| {
            let (src, at, here, want, name) = make(i);
            if here.len() < want || (name == 3 && src.contains("E, ")) {
                return;
            }
            l.exec(1);
            l.class(["no fault", "one fault", "two faults", "three faults"][want]);
            parse_errors(&src, l);
            // reading it: the error is at the first of the faults
            let got = facet_styx::from_str::<Doc>(&src);
            let mut bad = |w: String| l.violation(viol(format!("{src:?}"), w));
            let first = here.iter().min_by_key(|h| h.2);
            match (&got, first) {
                (Ok(_), None) => {}
                (Ok(v), Some(_)) => bad(format!("is read as {v:?}")),
                (Err(e), None) => bad(format!("is refused: {e}")),
                (Err(e), Some(&(a, f, from, to))) => {
                    let out = e.render(FILE, &src);
                    match &e.span {
                        None => bad(format!("the error says nothing of where: {e}")),
                        Some(s) => {
                            let got = (s.offset as usize, s.offset as usize + s.len as usize);
                            // the entry it is in: facet-format reports a value that cannot be
                            // parsed at the event before it
                            let entry = match a {
                                Tag0 | Tag1 => {
                                    let t = at.iter().find(|t| t.0 == Tags).unwrap();
                                    (t.1, t.2)
                                }
                                _ => (from - before(a), to),
                            };
                            if got.0 < entry.0 || got.1 > entry.1 || got.0 == got.1 || (f == Fault::Unknown && got != (from, to)) {
                                bad(format!(
                                    "{f:?} {a:?} at {from}..{to} is reported at {got:?} ({:?}): {e}",
                                    src.get(got.0..got.1)
                                ));
                            } else if let Err(w) = judge(&out, &src, &[got]) {
                                bad(format!("{a:?}: the report {w}\n{out}"));
                            }
                        }
                    }
                }
            }
            // validating it: all of them are reported
            let tree = match styx_tree::parse(&src) {
                Ok(t) => t,
                Err(e) => return bad(format!("does not parse: {e}")),
            };
            let r = facet_styx::validate(&tree, &schema);
            let mut got: Vec<(usize, usize)> = vec![];
            let mut missing = vec![];
            for e in &r.errors {
                match &e.span {
                    _ if matches!(e.kind, facet_styx::ValidationErrorKind::MissingField { .. }) => {
                        missing.push(e.path.clone())
                    }
                    None => bad(format!("the validation error says nothing of where: {e}")),
                    Some(s) => {
                        let s = (s.start as usize, s.end as usize);
                        got.push(s);
                        let out = e.render(FILE, &src);
                        if let Err(w) = judge(&out, &src, &[s]) {
                            bad(format!("validation: the report {w}\n{out}"));
                        }
                    }
                }
            }
            got.sort();
            let mut want: Vec<(usize, usize)> = here
                .iter()
                .map(|h| match h.1 {
                    Fault::Payload => (h.2 + "@slow".len(), h.3),
                    _ => (h.2, h.3),
                })
                .collect();
            want.sort();
            if got != want {
                bad(format!("validation reports {got:?} for {want:?}: {:?}", r.errors));
            }
            let mut want: Vec<&str> = here
                .iter()
                .filter_map(|h| match h.0 {
                    PortKey => Some("port"),
                    CertKey => Some("tls.cert"),
                    DepthKey => Some("tls.depth"),
                    LastKey => Some("last"),
                    _ => None,
                })
                .collect();
            want.sort();
            missing.sort();
            if missing != want {
                bad(format!("validation reports {missing:?} missing for {want:?}"));
            }
        },
    );
}

pub fn run(ctx: &Ctx) {
    unsafe { std::env::set_var("NO_COLOR", "1") };
    texts(ctx);
    escapes(ctx);
    syntax(ctx);
    faults(ctx);
}

/// What is wrong in a piece of text: the kind of the error, where it starts in it, and what it is.
type Wrong = (&'static str, usize, &'static str);
/// Values which are wrong, wherever they stand.
const VALUES: &[(&str, &[Wrong])] = &[
    ("v", &[]),
    ("\"\\q\"", &[("InvalidEscape", 1, "\\q")]),
    ("\"é\\q😀\\z\"", &[("InvalidEscape", 3, "\\q"), ("InvalidEscape", 9, "\\z")]),
    ("\"\\n\\u{1F6}\\q\"", &[("InvalidEscape", 10, "\\q")]),
    ("@a.b", &[("InvalidTagName", 0, "@a.b")]),
    ("@é", &[("InvalidTagName", 0, "@é")]),
    ("@1a", &[("InvalidTagName", 0, "@1a")]),
    ("@a@b.c", &[("InvalidTagName", 2, "@b.c")]),
    ("@t\"\\q\"", &[("InvalidEscape", 3, "\\q")]),
    ("@t(1,2)", &[("CommaInSequence", 4, ",")]),
    ("(é, b)", &[("CommaInSequence", 3, ",")]),
    ("(1 , 2\n,)", &[("CommaInSequence", 3, ","), ("CommaInSequence", 7, ",")]),
    ("{a 1, a 2}", &[("DuplicateKey", 6, "a")]),
    ("{é 1, \"é\" 2, é 3}", &[("DuplicateKey", 7, "\"é\""), ("DuplicateKey", 15, "é")]),
    ("{a.b 1, a 2}", &[("DuplicateKey", 8, "a")]),
    ("{a 1, a.b 2}", &[("NestIntoTerminal", 6, "a.b")]),
    ("{a.b 1, c 2, a.d 3}", &[("ReopenedPath", 13, "a.d")]),
    ("{/// é\n}", &[("DanglingDocComment", 1, "/// é")]),
    ("{a 1\n/// c\n}", &[("DanglingDocComment", 5, "/// c")]),
    ("{a b c}", &[("TooManyAtoms", 5, "c")]),
    ("{a{b 1}}", &[("MissingWhitespaceBeforeBlock", 2, "{")]),
    ("{a(1)}", &[("MissingWhitespaceBeforeBlock", 2, "(")]),
];
/// The same for whole entries.
const ENTRIES: &[(&str, &[Wrong])] = &[
    ("K v", &[]),
    ("K v w", &[("TooManyAtoms", 4, "w")]),
    ("K v \"w w\" x", &[("TooManyAtoms", 4, "\"w w\"")]),
    ("@a.b v", &[("InvalidTagName", 0, "@a.b")]),
    ("@é v", &[("InvalidTagName", 0, "@é")]),
    ("\"K\\q\" v", &[("InvalidEscape", 2, "\\q")]),
    ("(1) v", &[("InvalidKey", 0, "(1)")]),
    ("{z 1} v", &[("InvalidKey", 0, "{z 1}")]),
    ("K{z 1}", &[("MissingWhitespaceBeforeBlock", 1, "{")]),
    ("same v", &[("DuplicateKey", 0, "same")]),
    ("shut.x v", &[("ReopenedPath", 0, "shut.x")]),
];
/// What an entry or a value stands in.
const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("{same 1\nshut.a 2\nq 3\n", "\n}"),
    ("{\r\n  same 1\r\n  shut.a 2\r\n  q 3\r\n  ", "\r\n}"),
    ("({same 1, shut.a 2, q 3, ", "} é)"),
    ("@t{same 1, shut.a 2, q 3, ", "}"),
];
const IN_VALUE: &[(&str, &str)] = &[("", ""), ("(é ", " 2)"), ("x>1 é>", ""), ("@u(", ")"), ("{w (", ")}")];

fn name(kind: &ParseErrorKind) -> String {
    format!("{kind:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn syntax(ctx: &Ctx) {
    let (v, e) = (VALUES.len(), ENTRIES.len());
    // one entry of the document: its text, and what is wrong in it
    let one = |what: usize, around: usize, inside: usize, no: usize| -> Option<(String, Vec<(String, usize, usize)>)> {
        let key = format!("k{no}");
        let (mut text, mut wrong) = (String::new(), vec![]);
        if what < v {
            let (val, errs) = VALUES[what];
            let (a, b) = IN_VALUE[inside];
            text.push_str(&key);
            text.push(' ');
            text.push_str(a);
            let at = text.len();
            text.push_str(val);
            text.push_str(b);
            wrong.extend(errs.iter().map(|w| (w.0.to_string(), at + w.1, w.2.len())));
        } else {
            if inside > 0 {
                return None;
            }
            let (t, errs) = ENTRIES[what - v];
            if t.starts_with("same") || t.starts_with("shut") {
                // only once in each object
                if around == 0 && no > 0 {
                    return None;
                }
            }
            text.push_str(&if no == 1 { t.replace('K', "J") } else { t.to_string() });
            wrong.extend(errs.iter().map(|w| (w.0.to_string(), w.1, w.2.len())));
        }
        let (a, b) = AROUND[around];
        if around > 0 {
            let pre = format!("o{no} {a}");
            for w in &mut wrong {
                w.1 += pre.len();
            }
            text = format!("{pre}{text}{b}");
        }
        Some((text, wrong))
    };
    let tops = ["", "// ünïcode 😀\n", "\r\n"];
    let dims = Product(vec![
        tops.len() as u64,
        (v + e) as u64,
        AROUND.len() as u64,
        IN_VALUE.len() as u64,
        (v + e) as u64,
        if ctx.thorough() { AROUND.len() as u64 } else { 2 },
        if ctx.thorough() { IN_VALUE.len() as u64 } else { 1 },
    ]);
    let make = |i: u64| {
        let d = dims.decode(i);
        let mut src = tops[d[0]].to_string();
        src.push_str("same 1\nshut.a 2\nq 3\n");
        let mut want = vec![];
        for (no, (w, a, n)) in [(d[1], d[2], d[3]), (d[4], d[5], d[6])].into_iter().enumerate() {
            let (t, errs) = one(w, a, n, no)?;
            for e in errs {
                want.push((e.0, e.1 + src.len(), e.2));
            }
            src.push_str(&t);
            src.push('\n');
        }
        // what is no key cannot be told from another that is none
        let none = |w: usize| w >= v && ENTRIES[w - v].0.starts_with('@');
        (!(none(d[1]) && none(d[4])) && (d[1] < v || d[1] != d[4])).then_some((src, want))
    };
    ctx.space(
        "faults in the syntax, one and two",
        serde_json::json!({"values": v, "entries": e, "around": AROUND.len(), "inside": IN_VALUE.len(), "tops": tops.len()}),
        dims.total(),
        |i| make(i).map_or(String::new(), |m| m.0),
        |i, l| {
            let Some((src, want)) = make(i) else { return };
            l.exec(1);
            let mut got = vec![];
            for e in Parser::new(&src).parse_to_vec() {
                if let EventKind::Error { kind } = &e.kind {
                    got.push((name(kind), e.span.start as usize, (e.span.end - e.span.start) as usize));
                }
            }
            got.sort_by_key(|g| g.1);
            if got != want {
                l.violation(viol(format!("{src:?}"), format!("reports {got:?} for {want:?}")));
            }
            l.class(["no fault", "one", "two", "three", "four"][want.len().min(4)]);
            l.outcome(&want);
            // the tree parser stops at the first of them
            match (styx_tree::parse(&src), want.first()) {
                (Ok(_), None) => {}
                (Ok(_), Some(_)) => l.violation(viol(format!("{src:?}"), "parses")),
                (Err(e), None) => l.violation(viol(format!("{src:?}"), format!("does not parse: {e}"))),
                (Err(styx_tree::BuildError::Parse(kind, at)), Some(w)) => {
                    let got = (name(&kind), at.start as usize, (at.end - at.start) as usize);
                    if got != *w {
                        l.violation(viol(format!("{src:?}"), format!("the tree parser reports {got:?}, not {w:?}")));
                    }
                }
                (Err(e), Some(w)) => {
                    l.violation(viol(format!("{src:?}"), format!("the tree parser reports {e}, not {w:?}")))
                }
            }
        },
    );
}
