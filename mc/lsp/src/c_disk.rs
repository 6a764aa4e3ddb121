//! C24: what the language server keeps on disk for the user survives crashes, failing operations and
//! other servers.
use crate::c_ext::Scratch;
use mc_engine::{Ctx, Local, Product, Seqs, viol};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use styx_lsp::{cache, config};

const SHORT: &str = "schema {@ @string}\n";
const LONG: &str = "meta {id x}\nschema {@ @object{a @string, b @int}}\n";

/// One call into the library, as `lsp-one` makes it.
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Cache(&'static str, &'static str),
    Allow(&'static str),
    Save(&'static [&'static str]),
    Load,
    Clear,
}
impl Op {
    fn args(&self) -> Vec<&str> {
        match self {
            Op::Cache(k, c) => vec!["cache", k, c],
            Op::Allow(c) => vec!["allow", c],
            Op::Save(c) => [&["save"], *c].concat(),
            Op::Load => vec!["load"],
            Op::Clear => vec!["clear"],
        }
    }
    fn label(&self) -> String {
        match self {
            Op::Cache(k, c) => format!("cache {k} ({} bytes)", c.len()),
            _ => self.args().join(" "),
        }
    }
    fn command(&self, dir: &Path) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("lsp-one"));
        c.args(self.args()).env("XDG_CONFIG_HOME", dir.join("config")).env("XDG_CACHE_HOME", dir.join("cache"));
        c.env("LD_PRELOAD", std::env::var("STYX_FAULT").expect("STYX_FAULT not set")).env("FAULT_DIR", dir).env("FAULT_READS", "1");
        c.stdin(Stdio::null()).stderr(Stdio::null());
        c
    }
}

/// What is there before.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Start {
    Nothing,
    Good,
    Empty,
    Cut,
    Other,
    Directory,
    ParentIsFile,
    Link,
    Dangling,
}
use Start::*;

fn config_text(list: &[&str]) -> String {
    format!("// mine\nallowed_extensions ({})\n", list.join(" "))
}
fn entry(dir: &Path, key: &str, content: &str) -> PathBuf {
    // the name of an entry is the library's choice; only what it contains is judged
    let p = cache::embedded_cache_path(key, content).expect("cache path");
    let base = cache::cache_dir().expect("cache dir");
    dir.join("cache/styx/schemas").join(p.strip_prefix(base).expect("inside the cache"))
}
fn config_file(dir: &Path) -> PathBuf {
    dir.join("config/styx/config.styx")
}

fn place(start: Start, path: &Path, good: &str, other: &str, dir: &Path) {
    let parent = path.parent().unwrap();
    if start == ParentIsFile {
        let _ = std::fs::remove_dir_all(parent);
        std::fs::create_dir_all(parent.parent().unwrap()).unwrap();
        std::fs::write(parent, "in the way").unwrap();
        return;
    }
    if start == Nothing {
        return;
    }
    std::fs::create_dir_all(parent).unwrap();
    match start {
        Good => std::fs::write(path, good).unwrap(),
        Empty => std::fs::write(path, "").unwrap(),
        Cut => std::fs::write(path, &good[..good.len() / 2]).unwrap(),
        Other => std::fs::write(path, other).unwrap(),
        Directory => std::fs::create_dir(path).unwrap(),
        Link => {
            std::fs::write(dir.join("target"), good).unwrap();
            std::os::unix::fs::symlink(dir.join("target"), path).unwrap();
        }
        Dangling => std::os::unix::fs::symlink(dir.join("target"), path).unwrap(),
        Nothing | ParentIsFile => {}
    }
}

/// What the user's config allows, as anyone reading the file sees it; `Err` if it is no config.
fn allowed(dir: &Path) -> Result<Option<Vec<String>>, String> {
    match std::fs::read_to_string(config_file(dir)) {
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
        Err(e) => Err(e.to_string()),
        Ok(s) => facet_styx::from_str::<config::StyxUserConfig>(&s).map(|c| Some(c.allowed_extensions)).map_err(|e| format!("{s:?}: {e}")),
    }
}

fn files(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.symlink_metadata().is_ok_and(|m| m.is_dir()) {
            out.extend(files(&p));
        } else {
            out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
    out
}

/// Every schema in the cache is one of these, whole.
fn cache_is_whole(dir: &Path, known: &[(PathBuf, &str)]) -> Result<(), String> {
    for (p, c) in files(&dir.join("cache")) {
        if p.extension().is_some_and(|e| e == "styx") && !known.iter().any(|(q, k)| *q == p && k.as_bytes() == c) {
            return Err(format!("{} contains {:?}", p.strip_prefix(dir).unwrap().display(), String::from_utf8_lossy(&c)));
        }
    }
    Ok(())
}

// ---- one operation, one fault ------------------------------------------------------------------

const CONFIG_STARTS: &[Start] = &[Nothing, Good, Empty, Cut, Other, Directory, ParentIsFile, Link, Dangling];

fn faulted(op: &Op, start: Start, at: usize, kind: &str, dir: &Path, n: u64, l: &mut Local) {
    let s = Scratch::new(dir, &format!("f{n}"));
    let d = &s.0;
    std::fs::remove_dir_all(d.join("config")).unwrap();
    std::fs::create_dir_all(d.join("config")).unwrap();
    std::fs::create_dir_all(d.join("cache/other")).unwrap();
    std::fs::write(d.join("cache/other/x.styx"), "not ours").unwrap();
    let (good, other) = (config_text(&["foo", "bar"]), "allowed_extensions (foo\n");
    let known: Vec<(PathBuf, &str)> = match op {
        Op::Cache(k, c) => {
            let p = entry(d, k, c);
            place(start, &p, c, if *c == SHORT { LONG } else { SHORT }, d);
            vec![(p, *c)]
        }
        Op::Clear => {
            let p = entry(d, "k", SHORT);
            place(start, &p, SHORT, LONG, d);
            let q = entry(d, "k/l", LONG);
            if start != ParentIsFile {
                place(Good, &q, LONG, "", d);
            }
            vec![]
        }
        _ => {
            place(start, &config_file(d), &good, other, d);
            vec![]
        }
    };
    let before = files(d);
    let text = std::fs::read(config_file(d)).ok();
    let had = allowed(d);
    let key = format!("{} from {start:?}; {kind} at {at}", op.label());
    let run = |fault: Option<(usize, &str)>| {
        let mut c = op.command(d);
        if let Some((at, kind)) = fault {
            c.env("FAULT_AT", at.to_string()).env("FAULT_KIND", kind);
        }
        // the description of the operation is not needed
        let o = c.output().unwrap();
        (o.status.code(), String::from_utf8_lossy(&o.stdout).trim().to_string())
    };
    let mut bad = |what: String| l.violation(viol(key.clone(), what));
    let mut seen = String::new();
    for round in 0..2 {
        // then once more, undisturbed
        let (code, out) = run((round == 0).then_some((at, kind)));
        let killed = round == 0 && code == Some(137) && (kind == "kill" || kind.starts_with("torn"));
        if code != Some(0) && !killed {
            return bad(format!("round {round} ends with {code:?}: {out}"));
        }
        seen += &format!("{code:?} ");
        // whether it has to work: nothing failed and nothing is in the way
        let clean = round == 1 && !matches!(start, Directory | ParentIsFile);
        match op {
            Op::Cache(..) => {
                let (p, c) = &known[0];
                let now = std::fs::read(p);
                if out == "none" || killed {
                    if clean {
                        return bad("cannot be cached".into());
                    }
                    // whatever is there is what was there before, or all of it
                    if now.as_deref().ok() != before.get(p).map(|v| &v[..]) && now.as_deref().ok() != Some(c.as_bytes()) {
                        return bad(format!("leaves {now:?}"));
                    }
                } else if PathBuf::from(&out) != *p {
                    return bad(format!("answers {out:?}"));
                } else if now.as_deref().ok() != Some(c.as_bytes()) {
                    return bad(format!("answers with a file containing {now:?}"));
                }
            }
            Op::Allow(_) | Op::Save(_) => {
                let now = allowed(d);
                let want: Vec<String> = match op {
                    Op::Allow(c) => {
                        let mut v = had.clone().ok().flatten().unwrap_or_default();
                        if !v.iter().any(|x| x == c) {
                            v.push(c.to_string());
                        }
                        v
                    }
                    Op::Save(c) => c.iter().map(|c| c.to_string()).collect(),
                    _ => unreachable!(),
                };
                // a config that cannot be read is not replaced by allowing something
                let stuck = had.is_err() && matches!(op, Op::Allow(_));
                let same = std::fs::read(config_file(d)).ok() == text;
                if stuck && !same {
                    return bad("replaces a config it cannot read".into());
                }
                if !same && now != Ok(Some(want.clone())) {
                    return bad(format!("leaves {now:?}, not {want:?}"));
                }
                let failed = killed || out.starts_with("error");
                if clean && !stuck && now != Ok(Some(want.clone())) {
                    return bad(format!("allows {now:?} afterwards, not {want:?}"));
                }
                if matches!(op, Op::Save(_)) && !failed && now != Ok(Some(want)) {
                    return bad("saves nothing and reports success".into());
                }
                if start == Link && std::fs::read_link(config_file(d)).is_err() {
                    return bad("replaces a link".into());
                }
            }
            Op::Load => {
                if files(d) != before {
                    return bad("changes files".into());
                }
                let shown = match &had {
                    Ok(Some(v)) => json!(v).to_string(),
                    Ok(None) => "none".into(),
                    Err(_) => "error".into(),
                };
                let error = out.starts_with("error");
                if !killed && !(error && (round == 0 || shown == "error")) && out != shown {
                    return bad(format!("reads {out}, not {shown}"));
                }
            }
            Op::Clear => {
                if clean && files(&d.join("cache/styx")).len() + usize::from(d.join("cache/styx/schemas").exists()) > 0 {
                    return bad("leaves schemas".into());
                }
                if round == 0 && at >= 90 && start == Good && out != format!("2 {}", SHORT.len() + LONG.len()) {
                    return bad(format!("reports {out}"));
                }
            }
        }
        // nothing but its own files
        let after = files(d);
        let inside = |p: &Path| match op {
            Op::Cache(..) | Op::Clear => p.starts_with(d.join("cache/styx")),
            _ => p.starts_with(d.join("config/styx")) || (matches!(start, Link | Dangling) && p.to_string_lossy().starts_with(&*d.join("target").to_string_lossy())),
        };
        for (p, c) in before.iter().chain(&after) {
            if !inside(p) && (before.get(p) != Some(c) || after.get(p) != Some(c)) {
                return bad(format!("changes {}", p.strip_prefix(d).unwrap().display()));
            }
        }
        // after success or a reported failure no temporary file stays
        if !killed && round == 0 {
            let mut new = after.keys().filter(|p| !before.contains_key(*p) && !known.iter().any(|k| k.0 == **p) && !p.ends_with("config.styx") && p.extension().is_none_or(|e| e != "lock") && !p.ends_with("target"));
            if let Some(p) = new.next()
                && !kind.starts_with("error")
            {
                return bad(format!("leaves {}", p.strip_prefix(d).unwrap().display()));
            }
        }
    }
    l.exec(2);
    l.class(if seen.starts_with("Some(137)") { "ended by the fault" } else { "went on" });
    l.outcome(&key);
}

// ---- two processes -----------------------------------------------------------------------------

struct Proc {
    child: Child,
    /// what it is about to do
    steps: std::io::PipeReader,
    go: Option<std::io::PipeWriter>,
    next: Option<String>,
    /// it waits for a lock; what the other did since
    blocked: bool,
    killed: bool,
    out: PathBuf,
}
impl Proc {
    fn start(op: &Op, dir: &Path, name: &str) -> Proc {
        let (steps, their_steps) = std::io::pipe().unwrap();
        let (their_go, go) = std::io::pipe().unwrap();
        let out = dir.join(name);
        let mut c = op.command(dir);
        c.env("FAULT_STEP", "1").stdout(std::fs::File::create(&out).unwrap());
        let (a, b) = (their_go.as_raw_fd(), their_steps.as_raw_fd());
        unsafe {
            c.pre_exec(move || {
                // away from 8 and 9 first
                let (x, y) = (libc::fcntl(a, libc::F_DUPFD, 20), libc::fcntl(b, libc::F_DUPFD, 20));
                libc::dup2(x, 8);
                libc::dup2(y, 9);
                libc::close(x);
                libc::close(y);
                Ok(())
            });
        }
        let child = c.spawn().unwrap();
        let mut p = Proc { child, steps, go: Some(go), next: None, blocked: false, killed: false, out };
        drop((their_steps, their_go));
        p.wait();
        p
    }
    /// Until it announces what comes next, or ends.
    fn wait(&mut self) {
        let mut s = vec![];
        let mut b = [0];
        while self.steps.read(&mut b).unwrap() == 1 && b[0] != b'\n' {
            s.push(b[0]);
        }
        self.next = (!s.is_empty()).then(|| String::from_utf8(s).unwrap());
        self.blocked = self.next.as_deref() == Some("blocked");
        if self.next.is_none() {
            self.child.wait().unwrap();
        }
    }
    fn step(&mut self) {
        self.go.as_ref().unwrap().write_all(b".").unwrap();
        self.wait();
    }
    fn kill(&mut self) {
        self.go = None;
        self.killed = true;
        self.wait();
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.go = None;
        let _ = self.child.wait();
    }
}

/// Departures from "the running process runs on": (at which step, what).
type Plan = Vec<(usize, Alt)>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Alt {
    Switch,
    Kill,
}

struct Pair<'a> {
    ops: [&'a Op; 2],
    start: Start,
    budget: usize,
    dir: &'a Path,
    n: u64,
}

impl Pair<'_> {
    /// Run one schedule; the number of its steps and which departures it allows at each.
    fn run(&self, first: usize, plan: &Plan, l: &mut Local) -> Result<Vec<Vec<Alt>>, String> {
        thread_local!(static SERIAL: RefCell<u64> = const { RefCell::new(0) });
        let k = SERIAL.with(|s| s.replace_with(|v| *v + 1));
        let s = Scratch::new(self.dir, &format!("p{}-{k}", self.n));
        let d = &s.0;
        let mut known = vec![];
        for o in self.ops {
            if let Op::Cache(k, c) = o {
                let p = entry(d, k, c);
                if known.is_empty() && self.start != Cut {
                    place(self.start, &p, c, "", d);
                }
                known.push((p, *c));
            }
        }
        if self.start == Good {
            std::fs::write(config_file(d), config_text(&["foo", "bar"])).unwrap();
        }
        let had = allowed(d).unwrap().unwrap_or_default();
        let mut p = [Proc::start(self.ops[0], d, "out0"), Proc::start(self.ops[1], d, "out1")];
        let mut cur = first;
        let mut steps: Vec<Vec<Alt>> = vec![];
        // a blocked process can go on once the other gave something up
        let mut freed = [false; 2];
        let invariant = |p: &[Proc; 2]| -> Result<(), String> {
            cache_is_whole(d, &known)?;
            let now = allowed(d).map_err(|e| format!("the config is unreadable: {e}"))?.unwrap_or_default();
            let mut must = had.clone();
            let mut may = had.clone();
            for i in 0..2 {
                if let Op::Allow(c) = self.ops[i] {
                    may.push(c.to_string());
                    if p[i].next.is_none() && !p[i].killed {
                        must.push(c.to_string());
                    }
                }
            }
            if !must.iter().all(|c| now.contains(c)) || !now.iter().all(|c| may.contains(c)) || (1..now.len()).any(|i| now[..i].contains(&now[i])) {
                return Err(format!("the config allows {now:?}, not {must:?}"));
            }
            Ok(())
        };
        loop {
            let can = |i: usize, p: &[Proc; 2]| p[i].next.is_some() && (!p[i].blocked || freed[i] || p[1 - i].next.is_none());
            if p[0].next.is_none() && p[1].next.is_none() {
                break;
            }
            if !can(cur, &p) {
                if !can(1 - cur, &p) {
                    return Err(format!("both wait: {:?} {:?}", p[0].next, p[1].next));
                }
                cur = 1 - cur;
            }
            let mut alts = vec![];
            if can(1 - cur, &p) {
                alts.push(Alt::Switch);
            }
            // in what follows the kill differs only before something that changes files
            if !matches!(p[cur].next.as_deref(), Some("stat" | "look" | "read" | "blocked")) {
                alts.push(Alt::Kill);
            }
            let here = steps.len();
            steps.push(alts);
            match plan.iter().find(|x| x.0 == here) {
                Some((_, Alt::Switch)) => {
                    cur = 1 - cur;
                    // the step itself is the other's
                    let what = p[cur].next.clone();
                    p[cur].step();
                    if what.as_deref() == Some("close") || p[cur].next.is_none() {
                        freed[1 - cur] = true;
                    }
                }
                Some((_, Alt::Kill)) => {
                    p[cur].kill();
                    freed[1 - cur] = true;
                }
                None => {
                    let what = p[cur].next.clone();
                    p[cur].step();
                    if what.as_deref() == Some("close") || p[cur].next.is_none() {
                        freed[1 - cur] = true;
                    }
                }
            }
            if p[cur].blocked {
                freed[cur] = false;
            }
            invariant(&p)?;
            if steps.len() > 500 {
                return Err("does not end".into());
            }
        }
        l.exec(steps.len() as u64);
        // what they answer
        let clears = self.ops.contains(&&Op::Clear);
        for i in 0..2 {
            if p[i].killed {
                continue;
            }
            if !p[i].child.wait().unwrap().success() {
                return Err(format!("{} fails", self.ops[i].label()));
            }
            let out = std::fs::read_to_string(&p[i].out).unwrap();
            let out = out.trim();
            match self.ops[i] {
                Op::Cache(k, c) => {
                    let path = entry(d, k, c);
                    if clears {
                        if out != "none" && Path::new(out) != path {
                            return Err(format!("answers {out}"));
                        }
                    } else if Path::new(out) != path || std::fs::read(&path).ok().as_deref() != Some(c.as_bytes()) {
                        return Err(format!("{} answers {out}", self.ops[i].label()));
                    }
                }
                Op::Load => {
                    let now: Vec<String> = if out == "none" { vec![] } else { serde_json::from_str(out).map_err(|_| format!("load answers {out}"))? };
                    if !had.iter().all(|c| now.contains(c)) {
                        return Err(format!("load sees only {now:?}"));
                    }
                }
                _ => {}
            }
        }
        let mut all = [had.clone(), vec![]].concat();
        for i in 0..2 {
            if let (Op::Allow(c), false) = (self.ops[i], p[i].killed)
                && !all.iter().any(|x| x == c)
            {
                all.push(c.to_string());
            }
        }
        let mut now = allowed(d).unwrap().unwrap_or_default();
        let killed: Vec<String> = (0..2).filter(|i| p[*i].killed).filter_map(|i| if let Op::Allow(c) = self.ops[i] { Some(c.to_string()) } else { None }).collect();
        now.retain(|c| all.contains(c) || !killed.contains(c));
        let (mut a, mut b) = (now.clone(), all);
        a.retain(|c| b.contains(c));
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("in the end the config allows {now:?}"));
        }
        // whoever was killed tries again
        for i in 0..2 {
            if !p[i].killed {
                continue;
            }
            let o = self.ops[i].command(d).output().unwrap();
            let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
            match self.ops[i] {
                Op::Cache(k, c) if Path::new(&out) != entry(d, k, c) || std::fs::read(entry(d, k, c)).ok().as_deref() != Some(c.as_bytes()) => {
                    return Err(format!("afterwards, {} answers {out}", self.ops[i].label()));
                }
                Op::Allow(c) if !allowed(d)?.unwrap_or_default().iter().any(|x| x == c) => return Err(format!("afterwards, {c} cannot be allowed")),
                _ if !o.status.success() => return Err("fails afterwards".into()),
                _ => {}
            }
        }
        l.outcome(&format!("{now:?} {} {:?}", steps.len(), plan));
        Ok(steps)
    }

    /// All schedules that start with `plan` and have at most `budget` departures.
    fn explore(&self, first: usize, plan: &Plan, l: &mut Local) {
        let key = format!("{} | {} from {:?}, {} first, {plan:?}", self.ops[0].label(), self.ops[1].label(), self.start, first);
        let steps = match self.run(first, plan, l) {
            Ok(s) => s,
            Err(e) => return l.violation(viol(key, e)),
        };
        if plan.len() == self.budget {
            return;
        }
        let from = plan.last().map_or(0, |x| x.0 + 1);
        for (i, alts) in steps.iter().enumerate().skip(from) {
            for a in alts {
                // one of them is killed, at most
                if *a == Alt::Kill && plan.iter().any(|x| x.1 == Alt::Kill) {
                    continue;
                }
                let mut p = plan.clone();
                p.push((i, *a));
                self.explore(first, &p, l);
            }
        }
    }
}

// ---- names -------------------------------------------------------------------------------------

const PARTS: &[&str] = &["a", "", ".", "..", "a b", "é", "...", "a.styx", "~", "C:", "*"];

fn names(parts: &[usize], sep: &str, lead: &str, dir: &Path, l: &mut Local) {
    let key = format!("{lead}{}", parts.iter().map(|i| PARTS[*i]).collect::<Vec<_>>().join(sep));
    l.exec(1);
    let inside = cache::cache_dir().unwrap().join("embedded");
    // decided on the path alone, before anything is written
    match cache::embedded_cache_path(&key, SHORT) {
        Some(p) if !p.starts_with(&inside) || p.components().any(|c| c == std::path::Component::ParentDir) => {
            return l.violation(viol(key, format!("is cached in {}", p.display())));
        }
        Some(p) if Some(p.clone()) == cache::embedded_cache_path(&key, LONG) => {
            return l.violation(viol(key, "two contents share a file"));
        }
        None => return l.violation(viol(key, "cannot be cached")),
        _ => {}
    }
    assert!(inside.starts_with(dir));
    for c in [SHORT, LONG, SHORT] {
        let p = cache::cache_embedded_schema(&key, c);
        match p.as_ref().and_then(|p| std::fs::canonicalize(p).ok()) {
            Some(p) if !p.starts_with(std::fs::canonicalize(&inside).unwrap()) => return l.violation(viol(key, format!("is cached in {}", p.display()))),
            Some(p) if std::fs::read(&p).ok().as_deref() != Some(c.as_bytes()) => return l.violation(viol(key, "has another content")),
            None => return l.violation(viol(key, "is not cached")),
            _ => {}
        }
    }
    l.outcome(&key);
}

const CHARS: &[char] = &[
    'a', ' ', '"', '\\', '\n', '\t', '\r', '#', '@', '{', '}', '(', ')', ',', 'é', '=', '>', '<', '/', '\u{7f}', '\0', '|', '$', '.', '1', '😀', '\u{2028}',
];

pub fn run(ctx: &Ctx, dir: &Path) {
    // names first: they use this process's own cache directory
    let k = ctx.pick(3, 4);
    let s = Seqs::new(PARTS.len(), 1, k);
    let seps = ["/", "\\", "//"];
    let leads = ["", "/", "../", "\\"];
    let p = Product(vec![s.total(), 3, 4]);
    ctx.space(
        "names of cached schemas",
        json!({"parts": PARTS, "length": k, "separators": seps, "leading": leads}),
        p.total(),
        |i| format!("name {i}"),
        |i, l| {
            let v = p.decode(i);
            let mut w = vec![];
            s.decode(v[0] as u64, &mut w);
            names(&w, seps[v[1]], leads[v[2]], dir, l)
        },
    );

    let mut words: Vec<String> = vec![String::new(), "true".into(), "@".into(), "r#\"x\"#".into(), "<<A".into(), "a b c".into()];
    for a in CHARS {
        words.push(a.to_string());
        for b in CHARS {
            words.push(format!("{a}{b}"));
        }
    }
    let few: Vec<String> = words.iter().take(ctx.pick(40, 120)).cloned().collect();
    ctx.sequential("commands in the config", json!({"characters": CHARS.len(), "length": 2, "pairs": few.len()}), |l| {
        let mut check = |list: Vec<String>| {
            let c = config::StyxUserConfig { allowed_extensions: list.clone() };
            l.exec(1);
            if let Err(e) = config::save_config(&c) {
                return l.violation(viol(format!("{list:?}"), format!("cannot be saved: {e}")));
            }
            match config::load_config() {
                Ok(Some(c)) if c.allowed_extensions == list => {}
                o => return l.violation(viol(format!("{list:?}"), format!("is read as {o:?}"))),
            }
            // allowing again changes nothing, allowing something new adds it
            for x in list.first().into_iter().chain([&"z".to_string()]) {
                let mut want = list.clone();
                if !want.contains(x) {
                    want.push(x.clone());
                }
                let _ = config::save_config(&c);
                if let Err(e) = config::allow_extension(x) {
                    return l.violation(viol(format!("{list:?} and {x:?}"), format!("cannot be allowed: {e}")));
                }
                match config::load_config() {
                    Ok(Some(c)) if c.allowed_extensions == want => {}
                    o => return l.violation(viol(format!("{list:?} and {x:?}"), format!("allow leaves {o:?}"))),
                }
            }
            l.outcome(&format!("{list:?}"));
        };
        check(vec![]);
        for w in &words {
            check(vec![w.clone()]);
        }
        for a in &few {
            for b in &few {
                if a != b {
                    check(vec![a.clone(), b.clone()]);
                }
            }
        }
    });

    // versions of a schema: no two share a file
    let text = Seqs::new(64, 1, 3);
    let pads = [0usize, 1, 63, 64, 4096];
    let p = Product(vec![pads.len() as u64, pads.len() as u64]);
    ctx.space(
        "versions of a schema",
        json!({"texts": text.total(), "before and after": pads}),
        p.total(),
        |i| format!("versions {i}"),
        |i, l| {
            let v = p.decode(i);
            let (before, after) = ("a".repeat(pads[v[0]]), "b".repeat(pads[v[1]]));
            let mut seen = std::collections::HashMap::new();
            let mut w = vec![];
            // the whole set where it is cheap, the short texts where hashing is not
            let n = if pads[v[0]] + pads[v[1]] > 128 { 64 + 64 * 64 } else { text.total() };
            for t in 0..n {
                text.decode(t, &mut w);
                let c = format!("{before}{}{after}", w.iter().map(|c| (b'0' + *c as u8) as char).collect::<String>());
                l.exec(1);
                match cache::embedded_cache_path("k", &c) {
                    Some(p) => {
                        if let Some(t0) = seen.insert(p.clone(), t) {
                            return l.violation(viol(format!("versions {t0} and {t}"), format!("share {}", p.display())));
                        }
                    }
                    None => return l.violation(viol(format!("version {t}"), "cannot be cached")),
                }
            }
            l.outcome(&format!("{v:?}"));
        },
    );

    // one operation, one fault
    let ops = [Op::Cache("k", SHORT), Op::Cache("k/l", LONG), Op::Allow("new"), Op::Allow("foo"), Op::Save(&["x", "y z"]), Op::Save(&[]), Op::Load, Op::Clear];
    let mut kinds: Vec<String> = vec!["kill".into(), "error:5".into(), "error:28".into(), "error:13".into()];
    for n in if ctx.thorough() { (0..60).collect::<Vec<_>>() } else { vec![0, 1, 20] } {
        kinds.push(format!("torn:{n}"));
        kinds.push(format!("short:{n}"));
    }
    let at = 24;
    let p = Product(vec![ops.len() as u64, CONFIG_STARTS.len() as u64, at + 1, kinds.len() as u64]);
    ctx.space(
        "one operation, one fault",
        json!({"operations": ops.iter().map(Op::label).collect::<Vec<_>>(), "starts": CONFIG_STARTS.len(), "faults": kinds, "operations of the system": at}),
        p.total(),
        |i| format!("fault {i}"),
        |i, l| {
            let v = p.decode(i);
            // the last is without a fault
            let k = if v[2] as u64 == at { 99 } else { v[2] };
            if k == 99 && v[3] > 0 {
                return;
            }
            // a linked schema in the cache is nobody's
            if matches!(ops[v[0]], Op::Cache(..) | Op::Clear) && matches!(CONFIG_STARTS[v[1]], Link | Dangling) {
                return;
            }
            faulted(&ops[v[0]], CONFIG_STARTS[v[1]], k, &kinds[v[3]], dir, i, l)
        },
    );

    // two servers
    let pairs: Vec<([Op; 2], Start)> = vec![
        ([Op::Allow("new"), Op::Allow("two")], Nothing),
        ([Op::Allow("new"), Op::Allow("two")], Good),
        ([Op::Allow("new"), Op::Allow("new")], Nothing),
        ([Op::Allow("new"), Op::Allow("foo")], Good),
        ([Op::Allow("new"), Op::Load], Nothing),
        ([Op::Allow("new"), Op::Load], Good),
        ([Op::Cache("k", LONG), Op::Cache("k", LONG)], Nothing),
        ([Op::Cache("k", LONG), Op::Cache("k", SHORT)], Nothing),
        ([Op::Cache("k", LONG), Op::Cache("k", LONG)], Good),
        ([Op::Cache("k", LONG), Op::Clear], Nothing),
        ([Op::Cache("k", LONG), Op::Clear], Good),
        ([Op::Cache("k", LONG), Op::Allow("new")], Nothing),
    ];
    let budget = ctx.pick(2, 3);
    let most = 60usize;
    // the first departure is part of the point, so that the work spreads
    let p = Product(vec![pairs.len() as u64, 2, 2 * most as u64 + 1]);
    ctx.space(
        "two servers",
        json!({"pairs": pairs.len(), "departures": budget, "of which crashes": 1}),
        p.total(),
        |i| format!("pair {i}"),
        |i, l| {
            let v = p.decode(i);
            let (ops, start) = &pairs[v[0]];
            let e = Pair { ops: [&ops[0], &ops[1]], start: *start, budget, dir, n: i };
            let key = format!("{} | {} from {start:?}, {} first", ops[0].label(), ops[1].label(), v[1]);
            if v[2] == 2 * most {
                match e.run(v[1], &vec![], l) {
                    Ok(s) if s.len() > most => l.violation(viol(key, format!("{} steps are more than this check explores", s.len()))),
                    Ok(_) => {}
                    Err(e) => l.violation(viol(key, e)),
                }
                return;
            }
            let plan = vec![(v[2] / 2, if v[2] % 2 == 0 { Alt::Switch } else { Alt::Kill })];
            // is it possible there?
            match e.run(v[1], &vec![], l) {
                Ok(s) if s.get(plan[0].0).is_some_and(|a| a.contains(&plan[0].1)) => e.explore(v[1], &plan, l),
                _ => {}
            }
        },
    );
}
