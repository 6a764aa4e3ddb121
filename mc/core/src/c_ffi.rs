//! C20: the C interface says what the document says, and owns and releases memory correctly.
use crate::c_doc::{self, Alphabet};
use crate::impltree;
use crate::refdoc::{self, E, K, Out, R};
use mc_engine::*;
use std::io::Write;
use std::process::{Command, Stdio};

const PATHS: &[&str] = &["", "a", "b", "k", "a.b", "b.c", "a.b.c", "a[0]", "a[1]", "a[0].a", "k[0][0]", "k.a", "[0]"];

fn text(t: &str, out: &mut String) {
    out.push_str(&format!("{}:", t.len()));
    for c in t.chars() {
        match c {
            '\n' => out.push_str("\\n"),
            '\\' => out.push_str("\\\\"),
            c => out.push(c),
        }
    }
}

fn dump(r: &R, out: &mut String) {
    match r {
        R::Unit => out.push_str("uN"),
        R::Tag(n, p) => {
            out.push('@');
            text(n, out);
            match &**p {
                R::Unit => out.push('N'),
                p => dump(p, out),
            }
        }
        R::Scalar(_, t) => {
            out.push('S');
            text(t, out);
        }
        R::Seq(v) => {
            out.push('(');
            for i in v {
                dump(i, out);
                out.push(',');
            }
            out.push(')');
        }
        R::Obj(es) => {
            out.push('{');
            for e in es {
                dump(&key(&e.key), out);
                out.push('=');
                dump(&e.val, out);
                out.push(',');
            }
            out.push('}');
        }
    }
}

fn key(k: &K) -> R {
    match k {
        K::Unit => R::Unit,
        K::Scalar(k, t) => R::Scalar(k.clone(), t.clone()),
        K::Tag(n, p) => R::Tag(n.clone(), Box::new(p.as_ref().map_or(R::Unit, |(k, t)| R::Scalar(k.clone(), t.clone())))),
    }
}

/// Segments of a well-formed path.
pub fn segments(path: &str) -> Vec<String> {
    let mut v = vec![];
    for name in path.split('.') {
        let mut parts = name.split('[');
        match parts.next() {
            Some("") | None => {}
            Some(n) => v.push(n.to_string()),
        }
        v.extend(parts.map(|p| format!("[{p}")));
    }
    v
}

/// Follow a path; entries of sibling dotted paths count as one object.
pub fn follow<'a>(r: &'a R, path: &[String]) -> Option<&'a R> {
    let Some((first, rest)) = path.split_first() else { return Some(r) };
    let payload = match r {
        R::Tag(_, p) => p,
        r => r,
    };
    match payload {
        R::Obj(es) => es
            .iter()
            .filter(|e| matches!(&e.key, K::Scalar(_, t) if t == first))
            .find_map(|e| follow(&e.val, rest)),
        R::Seq(v) => {
            let n: usize = first.strip_prefix('[')?.strip_suffix(']')?.parse().ok()?;
            follow(v.get(n)?, rest)
        }
        _ => None,
    }
}

fn has_nul(r: &R) -> bool {
    match r {
        R::Unit => false,
        R::Scalar(_, t) => t.contains('\0'),
        R::Tag(_, p) => has_nul(p),
        R::Seq(v) => v.iter().any(has_nul),
        R::Obj(es) => es.iter().any(|e| has_nul(&key(&e.key)) || has_nul(&e.val)),
    }
}

/// The line the driver has to print, or `None` when nothing is claimed.
fn expected(src: &str) -> Option<String> {
    if src.contains('\0') {
        return None;
    }
    let tree = styx_tree::parse(src).ok().map(|v| impltree::from_value(&v));
    let root: Option<Vec<E>> = match refdoc::parse(src) {
        Out::Accept(es) if !impltree::has_chain(&R::Obj(es.clone())) => Some(es),
        Out::Reject(_) => None,
        _ => match tree {
            Some(R::Obj(es)) => Some(es),
            Some(_) => return None,
            None => None,
        },
    };
    let Some(es) = root else { return Some("E".into()) };
    let root = R::Obj(es);
    if has_nul(&root) {
        return None;
    }
    let mut s = "D".to_string();
    dump(&root, &mut s);
    for p in PATHS {
        s.push('|');
        match follow(&root, &segments(p)) {
            // the document itself is an object, not a value
            Some(_) if p.is_empty() => s.push('-'),
            Some(r) => dump(r, &mut s),
            None => s.push('-'),
        }
    }
    Some(s)
}

fn driver(var: &str, docs: &[String]) -> Result<Vec<String>, (usize, String)> {
    let path = std::env::var(var).unwrap_or_else(|_| panic!("{var} not set"));
    // the sanitizer reserves address space beyond the memory limit of the checker
    let mut c = Command::new("sh")
        .args(["-c", "ulimit -S -v unlimited; exec \"$0\"", &path])
        .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0")
        .env("UBSAN_OPTIONS", "halt_on_error=1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("driver");
    let mut req = vec![];
    for d in docs {
        req.extend(format!("{} {}\n{d}\0", d.len(), PATHS.len()).bytes());
        for p in PATHS {
            req.extend(p.bytes());
            req.push(0);
        }
    }
    let mut stdin = c.stdin.take().unwrap();
    let feed = std::thread::spawn(move || {
        let _ = stdin.write_all(&req);
    });
    let out = c.wait_with_output().expect("driver output");
    feed.join().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut lines: Vec<String> = text.split_terminator('\n').map(String::from).collect();
    let n = lines.len();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let why = err.lines().find(|l| l.contains("ERROR") || l.contains("runtime error") || l.contains("panicked")).unwrap_or("").to_string();
    if !out.status.success() || n < 2 || lines[n - 1] != "end" {
        let at = n.saturating_sub(1).min(docs.len() - 1);
        return Err((at, format!("the {var} driver stopped ({}): {why} {}", out.status, lines.last().filter(|_| n == docs.len() + 2).cloned().unwrap_or_default())));
    }
    if lines[0] != "nulls" {
        return Err((0, format!("null arguments: {}", lines[0])));
    }
    lines.pop();
    lines.remove(0);
    if lines.len() != docs.len() {
        return Err((0, format!("{} answers to {} requests", lines.len(), docs.len())));
    }
    Ok(lines)
}

fn check(docs: &[String], l: &mut Local) {
    for var in ["FFI_ASAN", "FFI_COUNT"] {
        let lines = match driver(var, docs) {
            Ok(v) => v,
            // a counting failure concerns the whole batch: find the document
            Err((at, why)) => {
                let at = if docs.len() == 1 { 0 } else { (0..docs.len()).find(|&i| driver(var, &docs[i..=i]).is_err()).unwrap_or(at) };
                l.violation(viol(docs[at].as_str(), why));
                return;
            }
        };
        for (src, got) in docs.iter().zip(&lines) {
            l.exec(1);
            let Some(want) = expected(src) else {
                l.class("not judged");
                continue;
            };
            l.class(if want == "E" { "error" } else { "document" });
            l.outcome(&want);
            if *got != want {
                l.violation(viol(src.as_str(), format!("the C interface reports {got}, expected {want}")));
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("documents whose texts contain NUL cannot be passed through C strings and are not judged");
    if c_doc::replay(ctx, |s, l| check(&[s.to_string()], l)) {
        return;
    }
    let sweep = |name: &str, alphabet: Alphabet, max: u32, contexts: &'static [(&'static str, &'static str)]| {
        const BATCH: u64 = 4096;
        let s = Seqs::new(alphabet.len(), 0, max);
        let n = contexts.len() as u64;
        let total = s.total() * n;
        let build = |i: u64| {
            let (p, q) = contexts[(i % n) as usize];
            format!("{p}{}{q}", s.concat(i / n, alphabet))
        };
        ctx.space(
            name,
            json!({"alphabet": alphabet, "max_length": max, "contexts": contexts, "documents": total, "documents_per_process": BATCH}),
            total.div_ceil(BATCH),
            |b| format!("batch {b} of {name}, from {:?}", build(b * BATCH)),
            |b, l| {
                let docs: Vec<String> = (b * BATCH..((b + 1) * BATCH).min(total)).map(build).collect();
                check(&docs, l);
                l.sample(b, json!(docs[docs.len() / 2]));
            },
        );
    };
    sweep("full", c_doc::FULL, ctx.pick(4, 5), &[("", "")]);
    sweep("structure", c_doc::STRUCT, ctx.pick(5, 7), &[("", ""), ("a ", "")]);
    const NAV: Alphabet = &["a ", "b ", "a.b ", "b.c ", "(", ") ", "{", "} ", "1", "\n", "@t", "\"\\u{e9}\\n\" "];
    sweep("navigation", NAV, ctx.pick(5, 6), &[("a ", ""), ("k (", ")")]);
    sweep("tags", c_doc::TAGS, ctx.pick(4, 5), &[("", ""), ("k (", ")")]);
    sweep("heredoc", c_doc::HEREDOC, ctx.pick(5, 6), &[("k <<A\n", "A")]);
    sweep("attributes", c_doc::ATTRS, ctx.pick(5, 6), &[("k ", "")]);
    sweep("escapes", c_doc::ESC, ctx.pick(4, 5), &[("a \"", "\"")]);
}
