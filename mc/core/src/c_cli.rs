//! C19: what the command line tool reads, writes, refuses and destroys.
use crate::c_doc::{self, Alphabet};
use crate::c_value::joined;
use crate::impltree;
use crate::refdoc::{self, E, K, Kind, Out, R};
use mc_engine::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use styx_format::FormatOptions;

fn bin() -> String {
    std::env::var("STYX_BIN").expect("STYX_BIN not set")
}

fn base() -> PathBuf {
    std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()))
}

/// A scratch directory for this thread.
fn scratch() -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    thread_local!(static DIR: PathBuf = base().join(N.fetch_add(1, Ordering::Relaxed).to_string()));
    DIR.with(|d| d.clone())
}

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}

fn run(args: &[&str], stdin: Option<&str>, cwd: &Path, env: &[(&str, String)]) -> Ran {
    let mut c = Command::new(bin());
    c.args(args).current_dir(cwd).env_clear().env("HOME", cwd).env("XDG_CACHE_HOME", cwd.join("cache")).env("NO_COLOR", "1").env("PATH", std::env::var("STYX_TOOLS").unwrap_or_default());
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().expect("styx");
    if let Some(s) = stdin {
        let _ = p.stdin.take().unwrap().write_all(s.as_bytes());
    }
    let o = p.wait_with_output().expect("styx output");
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// Every file below a directory.
fn snapshot(dir: &Path) -> BTreeMap<String, String> {
    fn walk(dir: &Path, rel: &str, out: &mut BTreeMap<String, String>) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let name = format!("{rel}{}", e.file_name().to_string_lossy());
            let meta = e.path().symlink_metadata().unwrap();
            if meta.is_symlink() {
                out.insert(name, format!("-> {}", std::fs::read_link(e.path()).unwrap().display()));
            } else if meta.is_dir() {
                out.insert(format!("{name}/"), String::new());
                walk(&e.path(), &format!("{name}/"), out);
            } else {
                let text = std::fs::read(e.path()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                out.insert(name, format!("{:o} {text}", meta.permissions().mode() & 0o7777));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, "", &mut out);
    out
}

fn clear(dir: &Path) {
    // only ever a directory made by `scratch`
    assert!(dir.starts_with(base()));
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("scratch directory");
}

// ---- what a document looks like ---------------------------------------------------------------

fn json_of(r: &R) -> Option<Json> {
    Some(match r {
        R::Unit => Json::Null,
        R::Scalar(_, t) => Json::String(t.clone()),
        R::Seq(v) => Json::Array(v.iter().map(json_of).collect::<Option<_>>()?),
        R::Tag(n, p) => match &**p {
            R::Unit => json!({"$tag": n}),
            p => json!({"$tag": n, "$payload": json_of(p)?}),
        },
        R::Obj(es) => {
            let mut m = serde_json::Map::new();
            for e in es {
                let k = match &e.key {
                    K::Unit => "@".to_string(),
                    K::Scalar(_, t) => t.clone(),
                    K::Tag(..) => return None,
                };
                if m.insert(k, json_of(&e.val)?).is_some() {
                    return None; // `@` next to `"@"`: JSON has one of them
                }
            }
            Json::Object(m)
        }
    })
}

/// Reads the output of `styx tree --format sexp`.
struct Sexp<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Sexp<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            return Ok(());
        }
        Err(format!("expected {:?} at {}", c as char, self.i))
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_alphanumeric() {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn span(&mut self) -> Result<(), String> {
        self.eat(b'[')?;
        while self.peek() != b']' {
            if self.i >= self.s.len() {
                return Err("unclosed span".into());
            }
            self.i += 1;
        }
        self.eat(b']')
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let rest = std::str::from_utf8(&self.s[self.i..]).map_err(|e| e.to_string())?;
        let mut out = String::new();
        let mut it = rest.char_indices();
        while let Some((n, c)) = it.next() {
            match c {
                '"' => {
                    self.i += n + 1;
                    return Ok(out);
                }
                '\\' => match it.next().map(|x| x.1) {
                    Some('n') => out.push('\n'),
                    Some('t') => out.push('\t'),
                    Some('r') => out.push('\r'),
                    Some('0') => out.push('\0'),
                    Some('u') => {
                        let hex: String = it.by_ref().map(|x| x.1).take_while(|c| *c != '}').filter(|c| *c != '{').collect();
                        out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                    }
                    Some(c) => out.push(c),
                    None => break,
                },
                c => out.push(c),
            }
        }
        Err("unclosed string".into())
    }
    fn node(&mut self) -> Result<R, String> {
        self.eat(b'(')?;
        let w = self.word();
        self.span()?;
        let r = match w.as_str() {
            "unit" => R::Unit,
            "scalar" => {
                let kind = match self.word().as_str() {
                    "bare" => Kind::Bare,
                    "quoted" => Kind::Quoted,
                    "raw" => Kind::Raw,
                    "heredoc" => Kind::Heredoc,
                    k => return Err(format!("kind {k}")),
                };
                R::Scalar(kind, self.string()?)
            }
            "tag" => {
                let name = self.string()?;
                let p = if self.peek() == b'(' { self.node()? } else { R::Unit };
                R::Tag(name, Box::new(p))
            }
            "sequence" => {
                let mut v = vec![];
                while self.peek() == b'(' {
                    v.push(self.node()?);
                }
                R::Seq(v)
            }
            "object" | "document" => {
                let mut es = vec![];
                while self.peek() == b'(' {
                    self.eat(b'(')?;
                    if self.word() != "entry" {
                        return Err("expected an entry".into());
                    }
                    let key = match self.node()? {
                        R::Unit => K::Unit,
                        R::Scalar(k, t) => K::Scalar(k, t),
                        R::Tag(n, p) => match *p {
                            R::Unit => K::Tag(n, None),
                            R::Scalar(k, t) => K::Tag(n, Some((k, t))),
                            _ => return Err("bad key".into()),
                        },
                        _ => return Err("bad key".into()),
                    };
                    let val = self.node()?;
                    self.eat(b')')?;
                    es.push(E { doc: None, key, val });
                }
                R::Obj(es)
            }
            w => return Err(format!("unknown node {w:?}")),
        };
        self.eat(b')')?;
        Ok(r)
    }
}
fn sexp(out: &str) -> Result<R, String> {
    let body = out.split_once('\n').ok_or("no header")?.1;
    let mut p = Sexp { s: body.as_bytes(), i: 0 };
    let r = p.node()?;
    match p.peek() {
        0 => Ok(r),
        c => Err(format!("trailing {:?}", c as char)),
    }
}
fn undocumented(r: &R) -> R {
    match r {
        R::Seq(v) => R::Seq(v.iter().map(undocumented).collect()),
        R::Tag(n, p) => R::Tag(n.clone(), Box::new(undocumented(p))),
        R::Obj(es) => R::Obj(es.iter().map(|e| E { doc: None, key: e.key.clone(), val: undocumented(&e.val) }).collect()),
        r => r.clone(),
    }
}

/// One document through `styx FILE`, `styx - --json-out -`, `styx tree --format sexp FILE` and `styx FILE --validate`.
fn content(src: &str, l: &mut Local) {
    let tree = match refdoc::parse(src) {
        Out::Accept(es) if !impltree::has_chain(&R::Obj(es.clone())) => Some(R::Obj(es)),
        Out::Reject(_) => None,
        // the library decides what the language leaves open
        _ => match styx_tree::parse(src) {
            Ok(v) => Some(impltree::from_value(&v)),
            Err(_) => None,
        },
    };
    let dir = scratch();
    clear(&dir);
    std::fs::write(dir.join("x.styx"), src).unwrap();
    let before = snapshot(&dir);
    let fail = |l: &mut Local, m: String| l.violation(viol(src, m));
    let pretty = run(&["x.styx"], None, &dir, &[]);
    let asjson = run(&["-", "--json-out", "-"], Some(src), &dir, &[]);
    let sx = run(&["tree", "--format", "sexp", "x.styx"], None, &dir, &[]);
    l.exec(3);
    if snapshot(&dir) != before {
        return fail(l, "files changed although only standard output was asked for".into());
    }
    match tree {
        None => {
            l.class("error");
            for (what, r) in [("styx x.styx", &pretty), ("styx - --json-out -", &asjson)] {
                if r.code != Some(1) || !r.out.is_empty() || r.err.trim().is_empty() {
                    return fail(l, format!("`{what}` on an invalid document: exit {:?}, output {:?}, message {:?}", r.code, r.out, r.err));
                }
            }
            if !sx.out.contains("(error ") {
                fail(l, format!("`styx tree` on an invalid document: exit {:?}, output {:?}", sx.code, sx.out));
            }
        }
        Some(tree) => {
            l.class("document");
            l.outcome(&tree);
            let want = styx_format::format_source(src, FormatOptions::default());
            if pretty.code != Some(0) || pretty.out != want {
                return fail(l, format!("`styx x.styx`: exit {:?}, output {:?}, expected {want:?}; {}", pretty.code, pretty.out, pretty.err));
            }
            match sexp(&sx.out) {
                Ok(got) if got == undocumented(&tree) && sx.code == Some(0) => {}
                got => return fail(l, format!("`styx tree --format sexp`: exit {:?}, reads {got:?}, expected {tree:?}", sx.code)),
            }
            let got: Option<Json> = serde_json::from_str(&asjson.out).ok();
            if asjson.code != Some(0) || got.is_none() {
                return fail(l, format!("`styx - --json-out -`: exit {:?}, output {:?}; {}", asjson.code, asjson.out, asjson.err));
            }
            if let Some(want) = json_of(&joined(&tree))
                && got.as_ref() != Some(&want)
            {
                fail(l, format!("as JSON: {}, expected {want}", got.unwrap()));
            }
        }
    }
}

// ---- options ----------------------------------------------------------------------------------

const SCHEMA: &str = "meta {id s}\nschema {@ @object{a @int, b @optional(@string), @schema @optional(@any)}}\n";
const DECLS: &[&str] = &["", "@schema s.styx\n", "@schema gone.styx\n", "@schema bad.styx\n", "@schema sub/t.styx\n", "@schema {cli no-such-tool-here}\n", "@schema {cli embed-tool, id s2}\n", "@schema {cli embed-tool, id gone}\n", "@schema {cli one-tool}\n", "@schema (1)\n"];
const BODIES: &[&str] = &["a 1\n", "a   1\nb \"x\"", "a x\n", "a 1\nzz 2\n", "a {\n", ""];
const INPUTS: &[&str] = &["x.styx", "./sub/x.styx", "-", "gone.styx", "d.d"];
/// destination: flag and target
const DESTS: &[(&str, &str)] = &[
    ("", ""), ("--in-place", ""), ("-o", "new.styx"), ("-o", "old.styx"), ("-o", "-"), ("-o", "x.styx"), ("-o", "./sub/../x.styx"), ("-o", "link.styx"), ("-o", "no/dir.styx"),
    ("--json-out", "-"), ("--json-out", "new.json"), ("--json-out", "old.styx"), ("--json-out", "no/dir.json"),
];
const SCHEMAS: &[&str] = &["", "s.styx", "gone.styx", "bad.styx", "sub/t.styx"];

/// `Ok(())` valid, `Err(codes)` the exit codes the outcome may have.
fn validation(src: &str, decl: &str, input: &str, schema: &str) -> Result<(), Vec<i32>> {
    let v = styx_tree::parse(src).expect("valid");
    let text = if !schema.is_empty() {
        match schema {
            "s.styx" => SCHEMA.to_string(),
            "sub/t.styx" => sub_schema(),
            "bad.styx" => return Err(vec![1, 2]),
            _ => return Err(vec![3]),
        }
    } else {
        // a relative path starts where the document is
        let sub = input.contains("sub");
        match decl.trim() {
            "" | "@schema (1)" => return Err(vec![2]),
            "@schema s.styx" if sub => return Err(vec![3]),
            "@schema s.styx" => SCHEMA.to_string(),
            "@schema sub/t.styx" if sub => return Err(vec![3]),
            "@schema sub/t.styx" => sub_schema(),
            "@schema bad.styx" if sub => return Err(vec![3]),
            "@schema bad.styx" => return Err(vec![1, 2]),
            "@schema gone.styx" => return Err(vec![3]),
            "@schema {cli embed-tool, id s2}" => std::fs::read_to_string(tool_schema(2)).unwrap(),
            "@schema {cli one-tool}" => std::fs::read_to_string(tool_schema(1)).unwrap(),
            _ => return Err(vec![2, 3]),
        }
    };
    let schema: facet_styx::SchemaFile = facet_styx::from_str(&text).expect("schema");
    // the declaration itself is not part of the validated value
    let mut v = v;
    v.as_object_mut().unwrap().entries.retain(|e| !e.key.is_schema_tag());
    if facet_styx::validate(&v, &schema).is_valid() { Ok(()) } else { Err(vec![2]) }
}
fn sub_schema() -> String {
    "meta {id t}\nschema {@ @object{a @string, zz @optional(@int)}}\n".into()
}
fn tool_schema(n: u32) -> PathBuf {
    verif_dir().join(format!("mc/embedtool/s{n}.styx"))
}

struct Case {
    decl: usize,
    body: usize,
    input: usize,
    dests: Vec<usize>,
    compact: bool,
    validate: bool,
    schema: usize,
}
impl Case {
    fn args(&self) -> Vec<&'static str> {
        let mut v = vec![INPUTS[self.input]];
        for &d in &self.dests {
            let (f, t) = DESTS[d];
            v.extend([f, t].into_iter().filter(|s| !s.is_empty()));
        }
        if self.compact {
            v.push("--compact");
        }
        if self.validate {
            v.push("--validate");
        }
        if self.schema > 0 {
            v.extend(["--schema", SCHEMAS[self.schema]]);
        }
        v
    }
    fn source(&self) -> String {
        format!("{}{}", DECLS[self.decl], BODIES[self.body])
    }
    fn key(&self) -> String {
        format!("styx {} on {:?}", self.args().join(" "), self.source())
    }
}

fn world(dir: &Path, src: &str) {
    clear(dir);
    std::fs::create_dir(dir.join("sub")).unwrap();
    std::fs::create_dir(dir.join("d.d")).unwrap();
    for (p, t) in [("x.styx", src), ("sub/x.styx", src), ("s.styx", SCHEMA), ("bad.styx", "meta {id"), ("sub/t.styx", &sub_schema()), ("old.styx", "old content, longer than what is written over it ...............................................................................\n")] {
        std::fs::write(dir.join(p), t).unwrap();
    }
    std::fs::set_permissions(dir.join("x.styx"), std::fs::Permissions::from_mode(0o640)).unwrap();
    std::os::unix::fs::symlink("x.styx", dir.join("link.styx")).unwrap();
}

fn options(c: &Case, l: &mut Local) {
    let dir = scratch();
    let src = c.source();
    world(&dir, &src);
    let before = snapshot(&dir);
    let input = INPUTS[c.input];
    let r = run(&c.args(), (input == "-").then_some(&src), &dir, &[]);
    let after = snapshot(&dir);
    l.exec(1);
    let fail = |l: &mut Local, m: String| l.violation(viol(c.key(), m));
    let has = |f: &str| c.dests.iter().any(|&d| DESTS[d].0 == f);
    let target = |f: &str| c.dests.iter().find(|&&d| DESTS[d].0 == f).map(|&d| DESTS[d].1);
    // everything that is wrong with the request
    let mut wrong: Vec<i32> = vec![];
    if has("--in-place") && input == "-" {
        wrong.push(1);
    }
    if c.schema > 0 && !c.validate {
        wrong.push(1);
    }
    if input == "x.styx" && matches!(target("-o"), Some("x.styx" | "./sub/../x.styx" | "link.styx")) {
        wrong.push(1);
    }
    let bad_doc = styx_tree::parse(&src).is_err();
    if matches!(input, "gone.styx" | "d.d") {
        wrong.push(3);
    } else if bad_doc {
        wrong.push(1);
    } else if c.validate
        && let Err(codes) = validation(&src, DECLS[c.decl], input, SCHEMAS[c.schema])
    {
        wrong.extend(codes);
    }
    if !wrong.is_empty() {
        l.class("refused");
        l.outcome(&(c.decl, c.body, c.input, c.schema, c.validate, r.code));
        if !r.code.is_some_and(|x| wrong.contains(&x)) {
            return fail(l, format!("exit {:?}, expected one of {wrong:?}; {}", r.code, r.err));
        }
        if after != before {
            return fail(l, format!("refused with exit {:?}, but files changed: {after:?}", r.code));
        }
        if !r.out.is_empty() || r.err.trim().is_empty() {
            fail(l, format!("refused with exit {:?}; output {:?}, message {:?}", r.code, r.out, r.err));
        }
        return;
    }
    l.outcome(&(c.decl, c.body, c.input, &c.dests, c.schema, c.validate, &r.out));
    let mut changed: BTreeMap<String, String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, v)| (k.clone(), v.clone())).collect();
    if let Some(gone) = before.keys().find(|k| !after.contains_key(*k)) {
        return fail(l, format!("{gone} is gone"));
    }
    if c.dests.len() > 1 {
        // several destinations: which one wins is not specified, but nothing else may change
        l.class("several destinations");
        for (f, t) in c.dests.iter().map(|&d| DESTS[d]) {
            let name = match (f, t) {
                ("--in-place", _) => input.trim_start_matches("./"),
                (_, "./sub/../x.styx" | "link.styx") => "x.styx",
                (_, t) => t,
            };
            changed.remove(name);
        }
        if !changed.is_empty() || !matches!(r.code, Some(0 | 3)) {
            fail(l, format!("exit {:?}, and unrelated files changed: {changed:?}", r.code));
        }
        return;
    }
    let opts = || if c.compact { FormatOptions::default().inline() } else { FormatOptions::default() };
    let text = if has("--json-out") {
        let tree = joined(&impltree::from_value(&styx_tree::parse(&src).unwrap()));
        json_of(&tree).map(|j| serde_json::to_string_pretty(&j).unwrap())
    } else {
        Some(styx_format::format_source(&src, opts()))
    };
    let same = |got: &str| match &text {
        Some(t) if has("--json-out") => serde_json::from_str::<Json>(got).ok() == serde_json::from_str(t).ok(),
        Some(t) => got == t,
        // keys that JSON has no form for
        None => serde_json::from_str::<Json>(got).is_ok(),
    };
    let (f, t) = c.dests.first().map(|&d| DESTS[d]).unwrap_or(("", ""));
    match (f, t) {
        ("", _) | (_, "-") => {
            l.class("to standard output");
            if r.code != Some(0) || !changed.is_empty() {
                return fail(l, format!("exit {:?}, changed files: {changed:?}; {}", r.code, r.err));
            }
            let silent = c.validate && f.is_empty();
            if if silent { !r.out.is_empty() } else { !same(&r.out) } {
                fail(l, format!("output {:?}, expected {text:?}", r.out));
            }
        }
        (_, "no/dir.styx" | "no/dir.json") => {
            l.class("cannot be written");
            if r.code != Some(3) || !changed.is_empty() || r.err.trim().is_empty() {
                fail(l, format!("exit {:?}, changed files: {changed:?}, message {:?}", r.code, r.err));
            }
        }
        _ => {
            l.class("to a file");
            let name = match (f, t) {
                ("--in-place", _) => input.trim_start_matches("./"),
                (_, "./sub/../x.styx" | "link.styx") => "x.styx",
                (_, t) => t,
            };
            let got = changed.remove(name).or_else(|| after.get(name).cloned());
            let ok = got.as_deref().and_then(|g| g.split_once(' ')).is_some_and(|(mode, g)| {
                let old = before.get(name).and_then(|b| b.split_once(' ')).map(|b| b.0);
                same(g) && (old.is_none() || old == Some(mode))
            });
            if r.code != Some(0) || !r.out.is_empty() || !changed.is_empty() || !ok {
                fail(l, format!("exit {:?}, output {:?}, {name} is {got:?}, expected {text:?}; other changes {changed:?}; {}", r.code, r.out, r.err));
            }
        }
    }
}

// ---- faults -----------------------------------------------------------------------------------

const FAULT_DOCS: &[&str] = &["a   1\n// c\nb {c  2}\n", "a 1\n", "k <<A\n  x\nA", "a {b 1\nc 2}\nz (1   2   3)\n"];
const COMMANDS: &[&[&str]] = &[&["x.styx", "--in-place"], &["link.styx", "--in-place"], &["x.styx", "-o", "old.styx"], &["x.styx", "-o", "new.styx"], &["x.styx", "--json-out", "old.styx"], &["x.styx", "--validate", "--schema", "any.styx", "--in-place"],
    // the rest writes to standard output
    &["x.styx"], &["x.styx", "--compact"], &["x.styx", "-o", "-"], &["x.styx", "--json-out", "-"]];

fn kinds(n: usize) -> Vec<String> {
    let mut v = vec!["kill".to_string()];
    v.extend((0..=n).map(|k| format!("torn:{k}")));
    v.extend((1..n).map(|k| format!("short:{k}")));
    v.extend([28, 5, 4, 13, 122].map(|e| format!("error:{e}")));
    v
}

/// A fault at one operation; true if it took place.
fn fault(doc: usize, cmd: usize, at: u64, kind: &str, l: &mut Local) -> bool {
    let dir = scratch();
    let src = FAULT_DOCS[doc];
    world(&dir, src);
    std::fs::write(dir.join("any.styx"), "meta {id any}\nschema {@ @any}\n").unwrap();
    let mark = base().join(format!("mark-{}", dir.file_name().unwrap().to_string_lossy()));
    let before = snapshot(&dir);
    // fd 200 receives the description of the operation that failed
    let _ = std::fs::remove_file(&mark);
    let args = COMMANDS[cmd];
    let script = format!("exec 9>'{}'; exec \"$@\"", mark.display());
    let o = Command::new("sh")
        .arg("-c")
        .arg(script)
        .arg("sh")
        .arg(bin())
        .args(args)
        .current_dir(&dir)
        .env("LD_PRELOAD", std::env::var("STYX_FAULT").expect("STYX_FAULT not set"))
        .env("FAULT_DIR", &dir)
        .env("FAULT_STDOUT", "1")
        .env("FAULT_AT", at.to_string())
        .env("FAULT_KIND", kind)
        .stdin(Stdio::null())
        .output()
        .expect("styx");
    let op = std::fs::read_to_string(&mark).unwrap_or_default();
    l.exec(1);
    let code = o.status.code();
    let after = snapshot(&dir);
    let key = format!("{} on {src:?}, {kind} at operation {at} ({})", args.join(" "), op.trim());
    let fail = |l: &mut Local, m: String| l.violation(viol(key.clone(), m));
    let in_place = args.contains(&"--in-place");
    let piped = args.len() == 1 || args[1] == "--compact" || args.get(2) == Some(&"-");
    // where the result goes
    let name = if in_place { "x.styx" } else if piped { "" } else { args[2] };
    let new = if args.get(1) == Some(&"--json-out") {
        serde_json::to_string_pretty(&json_of(&joined(&impltree::from_value(&styx_tree::parse(src).unwrap()))).unwrap()).unwrap()
    } else {
        styx_format::format_source(src, if args.contains(&"--compact") { FormatOptions::default().inline() } else { FormatOptions::default() })
    };
    let out = String::from_utf8_lossy(&o.stdout);
    let text = |w: &BTreeMap<String, String>| w.get(name).and_then(|t| t.split_once(' ')).map(|t| t.1.to_string());
    let mode = |w: &BTreeMap<String, String>| w.get(name).and_then(|t| t.split_once(' ')).map(|t| t.0.to_string());
    let killed = code == Some(137);
    l.class(if op.is_empty() { "no such operation" } else if killed { "killed" } else if code == Some(0) { "survived" } else { "failed" });
    l.outcome(&(code, text(&after), op.trim()));
    if let Some(k) = before.keys().find(|k| *k != name && after.get(*k) != before.get(*k)) {
        fail(l, format!("{k} changed: {:?}", after.get(k)));
    }
    if !killed && let Some(k) = after.keys().find(|k| *k != name && !before.contains_key(*k)) {
        fail(l, format!("{k} is left behind"));
    }
    if if piped { !new.starts_with(&*out) } else { !out.is_empty() } {
        fail(l, format!("output {out:?}, expected {new:?}"));
    }
    match code {
        Some(0) if piped => {
            if out != new {
                fail(l, format!("reported success, but the output is {out:?}, expected {new:?}"));
            }
        }
        Some(0) => {
            if text(&after).as_deref() != Some(&new) || (mode(&before).is_some() && mode(&before) != mode(&after)) {
                fail(l, format!("reported success, but {name} is {:?}", after.get(name)));
            }
        }
        Some(137) => {}
        Some(3) if in_place => {
            if after != before {
                fail(l, format!("reported failure, and {name} is {:?}", after.get(name)));
            }
        }
        Some(3) => {}
        c => fail(l, format!("exit {c:?}: {}", String::from_utf8_lossy(&o.stderr))),
    }
    if code == Some(3) && o.stderr.is_empty() {
        fail(l, "failed without a message".into());
    }
    // an interrupted call is simply repeated
    if kind == "error:4" && op.contains("write") && code != Some(0) {
        fail(l, format!("gave up on an interrupted write: exit {code:?}"));
    }
    if in_place {
        let now = text(&after);
        let old = text(&before);
        if now != old && now.as_deref() != Some(&new) {
            fail(l, format!("the file is neither the old nor the new one: {now:?}"));
        }
    }
    !op.is_empty()
}

pub fn check(ctx: &Ctx) {
    ctx.assume("which destination wins when several are asked for is not specified; then only unrelated files are judged");
    ctx.assume("a crash loses no data the kernel was given (process death, not power failure)");
    std::fs::create_dir_all(base()).unwrap();
    if c_doc::replay(ctx, content) {
        let _ = std::fs::remove_dir_all(base());
        return;
    }
    let (nd, nb, ni, ns) = (DECLS.len() as u64, BODIES.len() as u64, INPUTS.len() as u64, SCHEMAS.len() as u64);
    let space = |name: &str, dests: Vec<Vec<usize>>| {
        let p = Product(vec![nd, nb, ni, dests.len() as u64, 2, 2, ns]);
        let case = |i: u64| {
            let v = p.decode(i);
            Case { decl: v[0], body: v[1], input: v[2], dests: dests[v[3]].clone(), compact: v[4] > 0, validate: v[5] > 0, schema: v[6] }
        };
        ctx.space(
            name,
            json!({"declarations": DECLS, "bodies": BODIES, "inputs": INPUTS, "destinations": DESTS, "schemas": SCHEMAS}),
            p.total(),
            |i| case(i).key(),
            |i, l| {
                let c = case(i);
                // without validation, schemas and declarations play no part
                if !ctx.thorough() && ((!c.validate && (c.schema > 1 || c.decl > 1)) || (c.schema > 0 && c.decl > 1)) {
                    return l.class("does not differ");
                }
                if i % 1009 == 5 {
                    l.sample(i, json!(c.key()));
                }
                options(&c, l);
            },
        );
    };
    let one: Vec<Vec<usize>> = (0..DESTS.len()).map(|d| if d == 0 { vec![] } else { vec![d] }).collect();
    space("options", one);
    if ctx.thorough() {
        let mut two = vec![];
        for a in 1..DESTS.len() {
            for b in a + 1..DESTS.len() {
                if DESTS[a].0 != DESTS[b].0 {
                    two.push(vec![a, b]);
                }
            }
        }
        space("two destinations", two);
    }
    // every operation that changes a file, failing in every way
    let (docs, cmds) = (FAULT_DOCS.len() as u64, COMMANDS.len() as u64);
    const OPS: u64 = 12;
    let n = ctx.pick(12, 64);
    let ks = kinds(n);
    let p = Product(vec![docs, cmds, OPS, ks.len() as u64]);
    ctx.space(
        "faults",
        json!({"documents": FAULT_DOCS, "commands": COMMANDS, "operations": OPS, "kinds": ks}),
        p.total(),
        |i| format!("fault {i}"),
        |i, l| {
            let v = p.decode(i);
            let took_place = fault(v[0], v[1], v[2] as u64, &ks[v[3]], l);
            if took_place && v[2] as u64 == OPS - 1 {
                l.violation(viol(format!("fault {i}"), "more operations than the bound of this check"));
            }
        },
    );
    let sweep = |name: &str, a: Alphabet, max: u32, c: &'static [(&'static str, &'static str)]| c_doc::sweep(ctx, name, a, max, c, content);
    const DOCS: Alphabet = &["a ", "b.c ", "\"k\\n\" ", "@t", "@", "{", "} ", "(", ") ", "\n", ", ", "<<A\nx\nA\n"];
    sweep("documents", DOCS, ctx.pick(3, 4), &[("", ""), ("k ", "")]);
    const LINES: Alphabet = &["a.a 1\n", "a.b {x 1}\n", "b (1 {c 2} @)\n", "@ 1\n", "c @t{d @u(1)}\n", "/// d\n", "// c\n", "d x>1 y>2\n"];
    sweep("lines", LINES, ctx.pick(3, 5), &[("", "")]);
    const TEXTS: Alphabet = &["\\\\", "\\\"", "\\u{7}", "é", "😀", "'", "\t", "\\u{2028}", "/", "\\u{0}"];
    sweep("texts", TEXTS, ctx.pick(2, 3), &[("k \"", "\""), ("\"", "\" {a 1}")]);
    let _ = std::fs::remove_dir_all(base());
}
