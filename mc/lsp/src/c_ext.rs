//! C25: extensions run when the user allowed exactly their command, once, and never block the server.
use mc_engine::{Ctx, Local, Product, Seqs, viol};
use serde_json::{Value as Json, json};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A directory of one execution, removed afterwards.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(dir: &Path, name: &str) -> Scratch {
        let p = dir.join(name);
        std::fs::create_dir_all(p.join("config/styx")).unwrap();
        Scratch(p)
    }
    pub fn uri(&self, f: &str) -> String {
        format!("file://{}/{f}", self.0.display())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Run the helper program; its standard output, or what went wrong.
pub fn one(args: &[&str], dir: &Path, path: Option<&Path>) -> Result<String, String> {
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("lsp-one"));
    c.args(args).env("XDG_CONFIG_HOME", dir.join("config")).env("XDG_CACHE_HOME", dir.join("cache"));
    if let Some(p) = path {
        c.env("PATH", format!("{}:/usr/bin:/bin", p.display()));
    }
    let out = dir.join("stdout");
    c.stdin(Stdio::null()).stdout(std::fs::File::create(&out).unwrap()).stderr(Stdio::null());
    let mut p = c.spawn().unwrap();
    let t0 = Instant::now();
    let st = loop {
        match p.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(50) => {
                let _ = p.kill();
                let _ = p.wait();
                return Err("the server hangs".into());
            }
            None => std::thread::sleep(Duration::from_micros(500)),
        }
    };
    if !st.success() {
        return Err(format!("the server ends with {st}"));
    }
    Ok(std::fs::read_to_string(&out).unwrap())
}

const COMMANDS: &[&str] = &["foo", "foobar", "fo", "", "ABS", "foo bar"];
const PROGRAMS: &[&str] = &["foo", "foobar", "fo", "bar", "foo bar"];
/// which command the document's schema wants to launch (None: no extension)
const LAUNCH: &[Option<usize>] = &[None, Some(0), Some(1), Some(4), Some(5)];

#[derive(Clone, Debug)]
enum Ev {
    /// document, what its schema launches
    Open(usize, usize),
    Change(usize, usize),
    Close(usize),
    Allow(usize),
}

fn command(c: usize, bin: &Path) -> String {
    if COMMANDS[c] == "ABS" { bin.join("foo").display().to_string() } else { COMMANDS[c].into() }
}

fn permission(initial: &[usize], corrupt: bool, h: &[Ev], dir: &Path, bin: &Path, n: u64, l: &mut Local) {
    let s = Scratch::new(dir, &format!("p{n}"));
    let log = s.0.join("log");
    for (i, c) in LAUNCH.iter().enumerate() {
        let lsp = c.map(|c| format!(", lsp {{launch ({:?} {:?})}}", command(c, bin), log)).unwrap_or_default();
        std::fs::write(s.0.join(format!("s{i}.styx")), format!("meta {{id s{i}{lsp}}}\nschema {{@ @object{{name @optional(@string)}}}}\n")).unwrap();
    }
    if corrupt {
        std::fs::write(s.0.join("config/styx/config.styx"), "allowed_extensions (foo foobar\n").unwrap();
    } else if !initial.is_empty() {
        let list: Vec<String> = initial.iter().map(|c| format!("{:?}", command(*c, bin))).collect();
        std::fs::write(s.0.join("config/styx/config.styx"), format!("allowed_extensions ({})\n", list.join(" "))).unwrap();
    }
    let name = |d: usize| s.uri(["a.styx", "b.styx"][d]);
    let mut events = vec![];
    for e in h {
        match e {
            Ev::Open(d, k) => events.push(json!({"do": "open", "uri": name(*d), "text": format!("@schema s{k}.styx\nname x\n")})),
            Ev::Change(d, k) => events.push(json!({"do": "change", "uri": name(*d), "text": format!("@schema s{k}.styx\nname x\n")})),
            Ev::Close(d) => events.push(json!({"do": "close", "uri": name(*d)})),
            Ev::Allow(c) => events.push(json!({"do": "allow", "command": command(*c, bin)})),
        }
        events.push(json!({"do": "actions", "uri": name(0)}));
    }
    let spec = json!({"log": log, "uris": [name(0), name(1)], "events": events});
    let key = format!(
        "allowed {}; {}",
        if corrupt { "(unreadable)".into() } else { format!("{:?}", initial.iter().map(|c| COMMANDS[*c]).collect::<Vec<_>>()) },
        h.iter()
            .map(|e| match e {
                Ev::Open(d, k) => format!("open {d} launching {:?}", LAUNCH[*k].map(|c| COMMANDS[c])),
                Ev::Change(d, k) => format!("change {d} launching {:?}", LAUNCH[*k].map(|c| COMMANDS[c])),
                Ev::Close(d) => format!("close {d}"),
                Ev::Allow(c) => format!("allow {:?}", COMMANDS[*c]),
            })
            .collect::<Vec<_>>()
            .join("; ")
    );
    l.exec(h.len() as u64);
    let mut bad = |what: String| l.violation(viol(key.clone(), what));
    let out: Json = match one(&["session", &spec.to_string()], &s.0, Some(bin)) {
        Ok(o) => serde_json::from_str(&o).unwrap(),
        Err(e) => return bad(e),
    };
    let mut allowed: Vec<usize> = if corrupt { vec![] } else { initial.to_vec() };
    let mut open: [Option<usize>; 2] = [None; 2];
    let mut before = 0;
    for (i, e) in h.iter().enumerate() {
        match e {
            Ev::Open(d, k) | Ev::Change(d, k) => open[*d] = Some(*k),
            Ev::Close(d) => open[*d] = None,
            Ev::Allow(c) => allowed.push(*c),
        }
        let o = &out[2 * i];
        let ran: Vec<String> = o["ran"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
        let now = &ran[before..];
        // what an event may start: what it opens, or what it allows
        let may: Vec<usize> = match e {
            Ev::Open(_, k) | Ev::Change(_, k) => LAUNCH[*k].into_iter().collect(),
            Ev::Allow(_) => open.iter().flatten().filter_map(|k| LAUNCH[*k]).collect(),
            Ev::Close(_) => vec![],
        };
        let prog = |c: usize| if COMMANDS[c] == "ABS" { "foo".to_string() } else { COMMANDS[c].to_string() };
        for r in now {
            if !may.iter().any(|c| allowed.contains(c) && prog(*c) == *r) {
                return bad(format!("event {i} runs {r:?}, which is not allowed"));
            }
        }
        for c in &may {
            if allowed.contains(c) && !now.contains(&prog(*c)) {
                return bad(format!("event {i} does not run {:?}, which is allowed", COMMANDS[*c]));
            }
        }
        before = ran.len();
        for d in 0..2 {
            let blocked: Vec<&Json> = o["shown"][d].as_array().map_or(vec![], |v| v.iter().filter(|x| x["source"] == "styx-extension").collect());
            let want = open[d].and_then(|k| LAUNCH[k]).filter(|c| !allowed.contains(c));
            match (want, &blocked[..]) {
                (None, []) => {}
                (Some(c), [x]) if x["data"]["command"] == json!(command(c, bin)) => {}
                (w, b) => return bad(format!("after event {i} document {d} shows {b:?}, but {:?} waits for permission", w.map(|c| COMMANDS[c]))),
            }
        }
        // the quick fix allows what the diagnostic names
        let acts = out[2 * i + 1]["reply"].as_array().cloned().unwrap_or_default();
        let offered: Vec<&Json> = acts.iter().filter(|a| a["command"]["command"] == "styx.allowExtension").map(|a| &a["command"]["arguments"][0]["command"]).collect();
        let want = open[0].and_then(|k| LAUNCH[k]).filter(|c| !allowed.contains(c)).map(|c| json!(command(c, bin)));
        if offered != want.iter().collect::<Vec<_>>() {
            return bad(format!("after event {i} the quick fixes allow {offered:?}, not {want:?}"));
        }
    }
    l.outcome(&out.to_string());
    if n % 101 == 1 {
        l.sample(n, json!({"history": key}));
    }
}

/// Programs that are no extension: what they do after they note that they run.
const BAD: &[(&str, &str)] = &[
    ("mute", "exec /usr/bin/tail -f /dev/null"),
    ("deaf", "exec <&-; exec /usr/bin/tail -f /dev/null"),
    ("closed", "exec >&-; exec /usr/bin/tail -f /dev/null"),
    ("exits", "exit 0"),
    ("fails", "exit 1"),
    ("garbage", "printf 'hello, world. this is no protocol.\\n'; exec /usr/bin/tail -f /dev/null"),
    ("babbles", "exec yes"),
    ("missing", ""),
];
/// (what, document, its schema)
const CROWD: &[(&str, usize, usize)] = &[
    ("open", 0, 0),
    ("change", 0, 0),
    ("close", 0, 0),
    ("textDocument/hover", 0, 0),
    ("textDocument/completion", 0, 0),
    ("open", 1, 0),
    ("open", 2, 1),
];

fn crowd(b: usize, h: &[usize], dir: &Path, bin: &Path, n: u64, l: &mut Local) {
    let s = Scratch::new(dir, &format!("c{n}"));
    let (log, prog) = (s.0.join("log"), bin.join(BAD[b].0));
    for i in 0..2 {
        std::fs::write(
            s.0.join(format!("s{i}.styx")),
            format!("meta {{id s{i}, lsp {{launch ({prog:?} {log:?})}}}}\nschema {{@ @object{{name @optional(@string)}}}}\n"),
        )
        .unwrap();
    }
    std::fs::write(s.0.join("config/styx/config.styx"), format!("allowed_extensions ({prog:?})\n")).unwrap();
    let steps: Vec<Json> = h
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let (what, d, k) = CROWD[*e];
            json!({"do": what, "uri": s.uri(&format!("{d}.styx")), "text": format!("@schema s{k}.styx\nname x\n// {i}\n")})
        })
        .collect();
    let key = format!("a program that is {}; {}", BAD[b].0, h.iter().map(|e| format!("{} {}", CROWD[*e].0, CROWD[*e].1)).collect::<Vec<_>>().join("; "));
    l.exec(h.len() as u64);
    let mut bad = |what: String| l.violation(viol(key.clone(), what));
    let out = one(&["crowd", &json!({"log": log, "steps": steps}).to_string()], &s.0, None);
    // whatever happened, nothing of this stays
    for p in std::fs::read_to_string(&log).unwrap_or_default().split_whitespace() {
        // it inherited the directory of this execution
        let ours = std::fs::read(format!("/proc/{p}/environ")).is_ok_and(|e| String::from_utf8_lossy(&e).contains(&*s.0.to_string_lossy()));
        if ours {
            let _ = Command::new("kill").args(["-9", p]).status();
        }
    }
    let out: Json = match out {
        Ok(o) => serde_json::from_str(&o).unwrap(),
        Err(e) => return bad(e),
    };
    if let Some(i) = out["late"].as_array().unwrap().first() {
        return bad(format!("message {i} waits for the extension forever"));
    }
    if out["left"] != json!([]) {
        return bad("the program keeps running after the server gave it up".into());
    }
    l.outcome(&format!("{} {}", BAD[b].0, h.len()));
}

pub fn run(ctx: &Ctx, dir: &Path) {
    let bin = dir.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    for p in PROGRAMS {
        let f = bin.join(p);
        std::fs::write(&f, format!("#!/bin/sh\necho '{p}' >> \"$1\"\n")).unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }

    // what runs, for every history of documents and permissions
    let mut evs = vec![];
    for k in 0..LAUNCH.len() {
        evs.push(Ev::Open(0, k));
        evs.push(Ev::Change(0, k));
    }
    evs.push(Ev::Open(1, 1));
    evs.push(Ev::Open(1, 2));
    evs.push(Ev::Close(0));
    for c in 0..COMMANDS.len() {
        evs.push(Ev::Allow(c));
    }
    let seqs = Seqs::new(evs.len(), 1, 3);
    let mut hs: Vec<Vec<Ev>> = vec![];
    let mut v = vec![];
    for i in 0..seqs.total() {
        seqs.decode(i, &mut v);
        let h: Vec<Ev> = v.iter().map(|i| evs[*i].clone()).collect();
        let mut open = [false; 2];
        let ok = h.iter().all(|e| match e {
            Ev::Open(d, _) => !std::mem::replace(&mut open[*d], true),
            Ev::Change(d, _) => open[*d],
            Ev::Close(d) => std::mem::replace(&mut open[*d], false),
            Ev::Allow(_) => true,
        });
        if ok && open != [false; 2] {
            hs.push(h);
        }
    }
    let short: Vec<Vec<Ev>> = hs.iter().filter(|h| h.len() <= ctx.pick(1, 2)).cloned().collect();
    let mut initial: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..COMMANDS.len() {
        initial.push(vec![a]);
        for b in 0..a {
            initial.push(vec![b, a]);
        }
    }
    let p = Product(vec![initial.len() as u64 + 1, short.len() as u64]);
    let d = |i: u64| p.decode(i);
    ctx.space(
        "configurations",
        json!({"configurations": initial.len() + 1, "histories": short.len()}),
        p.total(),
        |i| format!("configuration {i}"),
        |i, l| {
            let v = d(i);
            let none = vec![];
            permission(initial.get(v[0]).unwrap_or(&none), v[0] == initial.len(), &short[v[1]], dir, &bin, i, l)
        },
    );
    let n = ctx.pick(2, 3);
    let hs: Vec<_> = hs.into_iter().filter(|h| h.len() <= n || matches!(h[..], [Ev::Open(0, _), Ev::Allow(_), _])).collect();
    ctx.space(
        "histories of permissions",
        json!({"messages": n, "after open, allow": 3, "events": evs.len()}),
        hs.len() as u64,
        |i| format!("history {i}"),
        |i, l| permission(&[], false, &hs[i as usize], dir, &bin, 1_000_000 + i, l),
    );

    // programs that do not behave, and a client that does not wait
    for (name, body) in BAD.iter().filter(|b| !b.1.is_empty()) {
        let f = bin.join(name);
        std::fs::write(&f, format!("#!/bin/sh\necho $$ >> \"$1\"\n{body}\n")).unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let k = ctx.pick(2, 4);
    let s = Seqs::new(CROWD.len(), 1, k);
    let mut hs = vec![];
    for i in 0..s.total() {
        s.decode(i, &mut v);
        let mut open = [false; 3];
        let ok = v.iter().all(|e| match CROWD[*e] {
            ("open", d, _) => !std::mem::replace(&mut open[d], true),
            ("close", d, _) => std::mem::replace(&mut open[d], false),
            (_, d, _) => open[d],
        });
        if ok {
            hs.push(v.clone());
        }
    }
    let p = Product(vec![BAD.len() as u64, hs.len() as u64]);
    ctx.space(
        "programs that are no extension",
        json!({"programs": BAD.len(), "messages": k, "histories": hs.len()}),
        p.total(),
        |i| format!("program {i}"),
        |i, l| {
            let w = p.decode(i);
            crowd(w[0], &hs[w[1]], dir, &bin, i, l)
        },
    );
}
