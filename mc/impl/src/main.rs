//! C15: the implementations of the language in Go, JavaScript and Python read a document as the
//! reference implementation does.
use mc_engine::*;
use serde_json::json;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{Receiver, channel};
use std::time::{Duration, Instant};
use styx_parse::ScalarKind;
use styx_tree::{Entry, Payload, Value};

// ---- the reference ----

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            ' '..='\u{7f}' => o.push(c),
            c => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
    }
    o + "\""
}
fn span(s: Option<styx_parse::Span>) -> String {
    s.map_or("none".into(), |s| format!("{},{}", s.start, s.end))
}
fn payload(p: &Payload) -> String {
    match p {
        Payload::Scalar(s) => {
            let kind = match s.kind {
                ScalarKind::Bare => "bare",
                ScalarKind::Quoted => "quoted",
                ScalarKind::Raw => "raw",
                ScalarKind::Heredoc => "heredoc",
            };
            format!("s{kind} {} {}", span(s.span), quote(&s.text))
        }
        Payload::Sequence(s) => {
            format!("({}{})", span(s.span), s.items.iter().map(|i| format!(" {}", value(i))).collect::<String>())
        }
        Payload::Object(o) => {
            format!("{{{}{}}}", span(o.span), o.entries.iter().map(|e| format!(" {}", entry(e))).collect::<String>())
        }
    }
}
fn value(v: &Value) -> String {
    match (&v.tag, &v.payload) {
        (None, None) => format!("@ {}", span(v.span)),
        (Some(t), None) => format!("@{} {}", quote(&t.name), span(v.span)),
        (Some(t), Some(p)) => format!("@{} {} {}", quote(&t.name), span(v.span), payload(p)),
        (None, Some(p)) => payload(p),
    }
}
fn entry(e: &Entry) -> String {
    format!("[{} {}]", value(&e.key), value(&e.value))
}
fn reference(src: &str) -> String {
    match styx_tree::parse(src) {
        Ok(v) => {
            let o = v.as_object().expect("an object");
            format!("ok {}", o.entries.iter().map(entry).collect::<Vec<_>>().join(" "))
        }
        Err(styx_tree::BuildError::Parse(kind, at)) => format!("error {},{} {}", at.start, at.end, quote(&kind.to_string())),
        Err(e) => format!("error {e}"),
    }
}

// ---- the others ----

const LANGS: [&str; 3] = ["go", "js", "py"];

fn command(lang: usize) -> Command {
    let here = verif_dir().join("mc/impl");
    match LANGS[lang] {
        "go" => Command::new(scratch().join("go/driver")),
        "js" => {
            let mut c = Command::new("node");
            c.arg(scratch().join("js/driver.mjs")).arg(scratch().join("js/index.mjs"));
            c
        }
        _ => {
            let mut c = Command::new("python3");
            c.arg("-B").arg(here.join("py/driver.py")).arg(repo_dir().join("implementations/styx-py"));
            c
        }
    }
}

/// A program that answers each document with a line.
struct Server {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}
impl Server {
    fn start(lang: usize) -> Server {
        let mut child = command(lang)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("starting the {} program: {e}", LANGS[lang]));
        let to = child.stdin.take().unwrap();
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let (tx, from) = channel();
        std::thread::spawn(move || {
            let mut s = String::new();
            while out.read_line(&mut s).is_ok_and(|n| n > 0) {
                if tx.send(std::mem::take(&mut s)).is_err() {
                    break;
                }
            }
        });
        Server { child, to, from }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("mc-impl-{}", std::process::id()))
}
thread_local! {
    static SERVERS: RefCell<[Option<Server>; 3]> = const { RefCell::new([None, None, None]) };
}
static HANGS: AtomicUsize = AtomicUsize::new(0);

fn answers(src: &str) -> Vec<String> {
    SERVERS.with_borrow_mut(|servers| {
        for (lang, s) in servers.iter_mut().enumerate() {
            let s = s.get_or_insert_with(|| Server::start(lang));
            let mut msg = (src.len() as u32).to_le_bytes().to_vec();
            msg.extend(src.as_bytes());
            let _ = s.to.write_all(&msg).and_then(|_| s.to.flush());
        }
        let until = Instant::now() + Duration::from_secs(if HANGS.load(Ordering::Relaxed) < 8 { 10 } else { 1 });
        servers
            .iter_mut()
            .map(|s| match s.as_mut().unwrap().from.recv_timeout(until.saturating_duration_since(Instant::now())) {
                Ok(a) => a.trim_end_matches('\n').to_string(),
                Err(_) => {
                    HANGS.fetch_add(1, Ordering::Relaxed);
                    *s = None;
                    "no answer".into()
                }
            })
            .collect()
    })
}

/// Without the span of the payload in a tagged key: the reference gives it the span of the key.
fn plain(tree: &str) -> String {
    let mut parts = tree.split("[@\"");
    let mut o = parts.next().unwrap_or("").to_string();
    for part in parts {
        o.push_str("[@\"");
        // NAME" S,E sKIND S,E "TEXT"
        let w: Vec<&str> = part.splitn(5, ' ').collect();
        match w[..] {
            [name, at, kind, _, rest] if kind.starts_with('s') => o.push_str(&format!("{name} {at} {kind} {rest}")),
            _ => o.push_str(part),
        }
    }
    o
}

fn judge(src: &str, l: &mut Local) {
    let want = plain(&reference(src));
    l.exec(1);
    l.outcome(&want);
    let refused = !want.starts_with("ok ");
    l.class(if refused { "refused" } else { "accepted" });
    for (lang, got) in answers(src).iter().enumerate() {
        if if refused { !got.starts_with("error ") } else { plain(got) != want } {
            l.violation(viol(format!("{}: {src:?}", LANGS[lang]), format!("{got}, not {want}")));
        }
    }
}

fn run(c: &mut Command) {
    let r = c.output().unwrap_or_else(|e| panic!("{c:?}: {e}"));
    if !r.status.success() {
        eprintln!("{c:?}\n{}{}", String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr));
        std::process::exit(2);
    }
}

fn prepare() {
    let here = verif_dir().join("mc/impl");
    let (go, js) = (scratch().join("go"), scratch().join("js"));
    std::fs::create_dir_all(&go).unwrap();
    std::fs::create_dir_all(&js).unwrap();
    // Go: the driver as a module which takes the implementation from the repository
    std::fs::copy(here.join("go/main.go"), go.join("main.go")).unwrap();
    let module = "github.com/bearcove/styx/implementations/styx-go";
    std::fs::write(
        go.join("go.mod"),
        format!("module driver\n\ngo 1.22\n\nrequire {module} v0.0.0\n\nreplace {module} => {}\n", repo_dir().join("implementations/styx-go").display()),
    )
    .unwrap();
    run(Command::new("go")
        .current_dir(&go)
        .args(["build", "-o", "driver", "."])
        .env("GOTOOLCHAIN", "local")
        .env("GOPROXY", "off")
        .env("GOFLAGS", "-mod=mod")
        .env("GOWORK", "off")
        .env("CGO_ENABLED", "0")
        .env("GOCACHE", verif_dir().join("target/gocache"))
        .env("GOPATH", verif_dir().join("target/gopath")));
    // JavaScript: the TypeScript sources without their types, in one file
    let esbuild = "/opt/veriftools/node/node_modules/.bin/esbuild";
    let bundle = |from: PathBuf, to: PathBuf| {
        run(Command::new(esbuild).arg(from).args(["--bundle", "--platform=node", "--format=esm", "--log-level=error"]).arg(format!("--outfile={}", to.display())))
    };
    bundle(here.join("js/driver.mts"), js.join("driver.mjs"));
    bundle(repo_dir().join("implementations/styx-js/src/index.ts"), js.join("index.mjs"));
}

/// Whether the text has what the specification does not settle and the reference takes and the
/// others do not: a tag directly after a tag (`@a@b`), and text in the line which opens a
/// heredoc after its delimiter and language.
fn unsettled(src: &str) -> bool {
    let tag = src.match_indices('@').any(|(i, _)| {
        let name = src[i + 1..].find(|c: char| !c.is_ascii_alphanumeric() && c != '_' && c != '-').unwrap_or(0);
        name > 0 && src[i + 1 + name..].trim_start_matches('/').strip_prefix('@').is_some_and(|rest| rest.starts_with(|c: char| c.is_ascii_alphabetic() || c == '@' || c == '_'))
    });
    let heredoc = src.match_indices("<<").any(|(i, _)| {
        let rest = src[i + 2..].trim_start_matches(|c: char| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
        let rest = match rest.strip_prefix(',') {
            Some(lang) if lang.starts_with(|c: char| c.is_ascii_lowercase()) => lang.trim_start_matches(|c: char| c.is_ascii_lowercase() || c.is_ascii_digit() || "_.-".contains(c)),
            _ => rest,
        };
        src[i + 2..].starts_with(|c: char| c.is_ascii_uppercase()) && !rest.is_empty() && !rest.starts_with('\n') && !rest.starts_with("\r\n")
    });
    tag || heredoc
}

fn texts(ctx: &Ctx) {
    let pieces = [
        "a", "b", " ", "\n", "{", "}", "(", ")", ",", "@", "\"x\"", "1 2", ">", ".", "// c\n", "/// d\n", "r#\"y\"#", "<<E\nz\nE\n", "é", "=", "<", "\"", "r", "#", "/", "\r\n", "\\n",
    ];
    for n in 0..=ctx.pick(4, 5) {
        let seqs = Seqs::new(pieces.len(), n, n);
        ctx.space(
            &format!("texts of {n} pieces"),
            json!({"pieces": pieces, "left out": "a tag directly after a tag; text after the delimiter of a heredoc"}),
            seqs.total(),
            |i| seqs.concat(i, &pieces),
            |i, l| {
                let src = seqs.concat(i, &pieces);
                if !unsettled(&src) {
                    judge(&src, l)
                }
            },
        );
    }
}

const SCALARS: [&str; 16] = [
    "a", "8080", "true", "é", "/x/y", "a=b", "http://h:1/p?q", "-", "\"x y\"", "\"\"", "\"a\\n\\t\\\"\\\\\"", "\"\\u00e9\\u{1F600}\"", "\"😀\"", "r\"y\\n\"", "r#\"a\"b\"#", "a.b",
];
const HEREDOCS: [&str; 4] = ["<<E\nz\nE", "<<END,rust\n  a\n\n b\nEND", "<<E\n    a\n      b\n    E", "<<E\nE"];
const KEYS: [&str; 10] = ["a", "b", "\"q k\"", "@", "@t", "a.b", "a.b.c", "b.a", "é", "r\"k\""];

/// Values: scalars, heredocs, units, tags, attributes, and sequences and objects of them.
fn values() -> Vec<String> {
    let mut v: Vec<String> = SCALARS.iter().chain(&HEREDOCS).map(|s| s.to_string()).collect();
    for s in [
        "@", "@t", "@t-1_x", "@t\"x\"", "@tr#\"y\"#", "@r#\"y\"#", "@@", "@\"x\"", "@t@", "@t()", "@t{}", "@t(a b)", "@t{a b}", "@t{a 1, b 2}", "@t{\n a @u(b)\n}", "@t<<E\nz\nE", "()", "{}", "(a)", "(a b)", "( a\n\"b\" )",
        "(() (a))", "({a b} {a c})", "(@ @t @t(a))", "{a}", "{a 1}", "{a 1, b 2}", "{\n  a 1\n  b 2\n}", "{a.b 1, a.c 2}", "{a {b {c d}}}", "{// c\n a 1}", "{\n/// d\na 1\n}", "{a 1\n}", "(a // c\n b)", "k>v",
        "k>v l>\"w\"", "k>(a b)", "k>{a b}", "k>@", "k>@t", "k>@t(a)", "k>r\"y\" l>1 m>2", "k>1 k>2", "k>1 k.a>2", "k>l>m>1", "k>l>(a) m>2", "(k>1 l>2 (m>3))", "(<<E\nz\nE\nb)", "{a <<E\nz\nE\nb 1}",
    ] {
        v.push(s.into());
    }
    v
}

fn documents(ctx: &Ctx) {
    let v = values();
    let n = v.len() as u64;
    // a value where values can stand
    let places = [
        "k V", "k V\n", "k V\n\n// c\nl 1\n", "// c\n/// d\nk V // e\n", "/// d\n/// e\nk V\nl V\n", "  k V\n  l @\n", "{k V\n}", "{\n  k V\n  l 1\n}\n", "{k V\n,l 1}", "k {a V\n}", "k {a V\n b {c V\n}}", "k (V\n)", "k (a V\n b)",
        "k (V\n V\n)", "k ((V\n) {x V\n})", "k @t(V\n)", "k @t{x V\n}", "k x>(V\n) y>{z V\n}", "\"q\" V", "@ V", "@t V", "a.b V\na.c V\nd V", "a.b.c V", "k V\r\nl 1\r\n", "r\"k\" V", "k x>V", "k w>1 x>V", "k (x>V\n)", "k @t(x>V\n y>V)", "k w>x>V", "k x>V\n,l 1", "k\nl V", "\tk\tV\t\n", "é V\né2 V",
    ];
    ctx.space(
        "a value in a document",
        json!({"values": v, "places": places.to_vec()}),
        n * places.len() as u64,
        |i| places[(i / n) as usize].replace('V', &v[(i % n) as usize]),
        |i, l| judge(&places[(i / n) as usize].replace('V', &v[(i % n) as usize]), l),
    );
    // two of them beside each other
    let pairs = ["k V\nl W", "k (V\nW\n)", "k {a V\nb W\n}", "k @t{a (V\n W\n)}", "{k V\n l W\n}"];
    ctx.space(
        "two values in a document",
        json!({"values": v, "places": pairs}),
        n * n * pairs.len() as u64,
        |i| format!("{i}"),
        |i, l| judge(&pairs[(i / n / n) as usize].replace('V', &v[(i / n % n) as usize]).replace('W', &v[(i % n) as usize]), l),
    );
    // keys after each other
    let bodies = ["", " 1", " {x 1}", " ()", " x>1"];
    let seps = ["\n", "\n\n", " // c\n", "\n/// d\n"];
    let wraps = [("", ""), ("{", "\n}"), ("k {", "\n}"), ("k @t{\n", "\n}"), ("k ({", "\n})")];
    let one = (KEYS.len() * bodies.len()) as u64;
    let m = ctx.pick(2, 3) as u32;
    let doc = |i: u64| {
        let (w, mut i) = ((i % 5) as usize, i / 5);
        let sep = seps[(i % 4) as usize];
        i /= 4;
        let mut d = String::from(wraps[w].0);
        for e in 0..m {
            if e > 0 {
                d.push_str(sep);
            }
            let j = i % one;
            i /= one;
            d.push_str(KEYS[j as usize / 5]);
            d.push_str(bodies[j as usize % 5]);
        }
        d + wraps[w].1
    };
    ctx.space("keys after each other", json!({"keys": KEYS, "bodies": bodies, "separators": seps, "around": wraps, "entries": m}), 20 * one.pow(m), doc, |i, l| judge(&doc(i), l));
}

fn scalars(ctx: &Ctx) {
    let seqs = |name: &str, before: &str, pieces: &[&str], after: &str, max: u32| {
        for n in 1..=max {
            let s = Seqs::new(pieces.len(), n, n);
            let doc = |i: u64| format!("{before}{}{after}", s.concat(i, pieces));
            ctx.space(&format!("{name} of {n} pieces"), json!({"pieces": pieces, "before": before, "after": after}), s.total(), doc, |i, l| {
                let src = doc(i);
                if !unsettled(&src) {
                    judge(&src, l)
                }
            });
        }
    };
    let quoted = ["\\", "u", "{", "}", "00e9", "d83d", "1F600", "110000", "\"", "x", "é", "n", "r", "+", "\n", " "];
    seqs("quoted strings", "k \"", &quoted, "\"\nl 1", ctx.pick(3, 5) as u32);
    seqs("escapes", "k \"\\u{", &["0", "4", "1", "d", "F", "g", "}", "_", " ", "\""], "\"", ctx.pick(4, 6) as u32);
    seqs("raw strings", "k r", &["r", "#", "\"", "x", "\n", " ", "\\", "é"], "\"#\nl 1", ctx.pick(4, 6) as u32);
    let lines = ["a\n", " a\n", "\ta\n", "  b é\n", "\n", " \n", "E\n", " E\n", "  E", "\tE\n", "Ea\n", "a\r\n", "E\r\n", "E 1\n"];
    seqs("heredocs", "k <<E\n", &lines, "", ctx.pick(4, 5) as u32);
    seqs("heredocs in an object", "k {\n  a <<E,x-y\n", &lines, "\n  b 1\n}", ctx.pick(3, 4) as u32);
    for after in ["", ",x", "\r", ",x-1.y_\r"] {
        seqs(&format!("heredoc openings before {after:?}"), "k <<E", &["E", "1", "_", "Z9", "567890123456"], &format!("{after}\nz\nE\n"), ctx.pick(3, 5) as u32);
    }
    seqs("starts of heredoc openings", "k <<", &["1", "_", "-", "e", "é", ",", " ", "É", ".", "<"], "\nz\nE\n", 2);
    let c: Vec<String> = (1..=127u8).map(|c| (c as char).to_string()).filter(|c| c != "\r").collect();
    let c: Vec<&str> = c.iter().map(|c| &**c).collect();
    seqs("bare values", "k ", &c, "", 2);
    seqs("bare keys", "", &c, " 1", 2);
    seqs("tags", "k @", &c, "", 2);
    seqs("tags with names", "k @a", &c, "b", 2);
    // every code point where a text can have it
    let to = ctx.pick(0x3000, 0x110000) as u64;
    let places = ["k C", "k aCb", "C 1", "k \"C\"", "@a(C)", "// C\nk 1", "k <<E\nC\nE"];
    let doc = |i: u64| char::from_u32((i / 7) as u32).filter(|c| *c != '\r').map(|c| places[(i % 7) as usize].replace('C', &c.to_string()));
    ctx.space("code points", json!({"below": to, "places": places}), to * 7, |i| doc(i).unwrap_or_default(), |i, l| if let Some(d) = doc(i) { judge(&d, l) });
    let escape = |i: u64| if i % 2 == 0 { format!("k \"\\u{{{:x}}}\"", i / 2) } else { format!("k \"\\u{:04X}\"", i / 2) };
    let to = ctx.pick(0x11000, 0x120000) as u64;
    ctx.space("code points as escapes", json!({"below": to}), to * 2, escape, |i, l| judge(&escape(i), l));
}

/// The documents of the compliance suite: also the errors are the same there. And with a
/// character less, where the errors may differ.
fn corpus(ctx: &Ctx) {
    let mut docs = vec![];
    let mut dirs = vec![repo_dir().join("compliance/corpus")];
    while let Some(d) = dirs.pop() {
        for f in std::fs::read_dir(d).unwrap().map(|f| f.unwrap().path()) {
            if f.is_dir() {
                dirs.push(f);
            } else if f.extension().is_some_and(|e| e == "styx") {
                docs.push((f.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read_to_string(f).unwrap()));
            }
        }
    }
    docs.sort();
    let n = docs.len() as u64;
    ctx.space(
        "the compliance suite",
        json!({"documents": n}),
        n,
        |i| docs[i as usize].0.clone(),
        |i, l| {
            let src = &docs[i as usize].1;
            let want = plain(&reference(src));
            l.exec(1);
            l.outcome(&want);
            for (lang, got) in answers(src).iter().enumerate() {
                if plain(got) != want {
                    l.violation(viol(format!("{}: {src:?}", LANGS[lang]), format!("{got}, not {want}")));
                }
            }
        },
    );
    let less: Vec<String> = docs
        .iter()
        .filter(|d| d.1.len() <= ctx.pick(2000, 100000) && !d.1.contains('\r'))
        .flat_map(|(_, d)| d.char_indices().map(|(i, c)| format!("{}{}", &d[..i], &d[i + c.len_utf8()..])))
        .collect();
    ctx.space(
        "the compliance suite with a character less",
        json!({}),
        less.len() as u64,
        |i| less[i as usize].clone(),
        |i, l| {
            if !unsettled(&less[i as usize]) {
                judge(&less[i as usize], l)
            }
        },
    );
}

fn main() {
    supervise();
    let prop = std::env::args().nth(1).expect("usage: mc-impl C15");
    let ctx = Ctx::new(&prop, "model_checking");
    struct Clean;
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(scratch());
        }
    }
    let clean = Clean;
    prepare();
    // MC_ASK: the answers of all of them to the texts of a file
    if let Ok(f) = std::env::var("MC_ASK") {
        for src in std::fs::read_to_string(f).unwrap().split("\n---\n") {
            println!("=== {src:?}\n  rust {}", reference(src));
            for (lang, a) in answers(src).iter().enumerate() {
                println!("  {}   {a}", LANGS[lang]);
            }
        }
        drop(clean);
        std::process::exit(0);
    }
    documents(&ctx);
    corpus(&ctx);
    scalars(&ctx);
    texts(&ctx);
    drop(clean);
    ctx.finish()
}
