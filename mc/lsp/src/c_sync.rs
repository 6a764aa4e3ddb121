//! C18: the server follows the editor, whatever the interleaving of its handlers.
//!
//! A history is what a client may send (open, change, close, requests). A schedule says when each
//! message is handed to its handler, when a handler that was woken is polled again, and when the
//! client takes the next message from the server. tower-lsp runs at most four handlers at a time
//! and polls each for the first time in the order of arrival; everything else is free.
use crate::session::*;
use mc_engine::{Ctx, Local, Seqs, guarded, viol};
use serde_json::{Value as Json, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub const CONCURRENT: usize = 4;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open(usize, usize),
    /// the texts of one didChange
    Change(usize, Vec<usize>),
    Close(usize),
    Req(usize, usize),
    Allow,
}

pub struct World {
    pub dir: PathBuf,
    pub texts: Vec<String>,
    refs: Mutex<HashMap<(usize, usize), Vec<Json>>>,
    answers: Mutex<HashMap<(usize, usize, usize), Json>>,
}

impl World {
    pub fn new(dir: &Path) -> World {
        std::fs::write(
            dir.join("s.styx"),
            "meta {id s, version 1.0.0, description words}\nschema {@ @object{name @int, list @optional(@seq(@string))}}\n",
        )
        .unwrap();
        let texts = [
            "name 1\n",
            "// note\n  name   {a 1, b (x y)}\nlist (1 2)\n",
            // an error the concrete syntax reports
            "name {a 1\n",
            "@schema s.styx\nname 2\n",
            // what the schema refuses
            "@schema s.styx\nname x\nnmae 2\n",
            // an error only the tree has
            "a {b 1}\na.b 2\n",
            "",
        ];
        World { dir: dir.into(), texts: texts.map(String::from).to_vec(), refs: Default::default(), answers: Default::default() }
    }
    pub fn uri(&self, u: usize) -> String {
        format!("file://{}/{}.styx", self.dir.display(), ["a", "b", "c"][u])
    }
    /// The diagnostics of a text, from a server that does nothing else.
    fn diagnostics(&self, u: usize, t: usize) -> Vec<Json> {
        if let Some(d) = self.refs.lock().unwrap().get(&(u, t)) {
            return d.clone();
        }
        let got = Session::new().open(&self.uri(u), &self.texts[t], 1);
        let d = published(&got, &self.uri(u)).last().expect("no diagnostics are published").1.clone();
        self.refs.lock().unwrap().insert((u, t), d.clone());
        d
    }
    /// The answer to a request about a text, from a server that does nothing else.
    fn answer(&self, u: usize, t: Option<usize>, r: usize) -> Json {
        let k = (u, t.unwrap_or(usize::MAX), r);
        if let Some(a) = self.answers.lock().unwrap().get(&k) {
            return a.clone();
        }
        let mut s = Session::new();
        if let Some(t) = t {
            s.open(&self.uri(u), &self.texts[t], 1);
        }
        let a = s.request(REQUESTS[r], request_params(REQUESTS[r], &self.uri(u), 1, 1))["result"].clone();
        self.answers.lock().unwrap().insert(k, a.clone());
        a
    }
}

/// (version, diagnostics) of each publication for a document.
fn published(got: &[Json], uri: &str) -> Vec<(Json, Vec<Json>)> {
    got.iter()
        .filter(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == uri)
        .map(|m| (m["params"]["version"].clone(), m["params"]["diagnostics"].as_array().cloned().unwrap_or_default()))
        .collect()
}

/// One execution: follow `choices` (0 beyond their end), extend them with the number of branches
/// seen. Err: the schedule does something impossible at its last choice.
struct Run<'a> {
    w: &'a World,
    h: &'a [Ev],
    /// version of event i
    versions: &'a [i64],
    choices: Vec<(usize, usize)>,
    trace: Vec<String>,
    depth: usize,
}

enum End {
    Done,
    Disabled,
    Bad(String),
}

impl Run<'_> {
    fn pick(&mut self, n: usize) -> usize {
        if self.depth == self.choices.len() {
            self.choices.push((0, n));
        }
        let c = self.choices[self.depth].0;
        self.choices[self.depth].1 = n;
        self.depth += 1;
        c
    }

    fn go(&mut self) -> End {
        let w = self.w;
        let mut s = Session::new();
        let mut tasks: Vec<Task> = vec![];
        let mut next = 0;
        // per document: its text and version, and the versions of this and earlier lives
        let mut open: [Option<(usize, i64)>; 3] = [None; 3];
        let mut texts_of: HashMap<(usize, i64), usize> = HashMap::new();
        // the states a document has had since each request arrived
        let mut seen: HashMap<usize, Vec<Option<usize>>> = HashMap::new();
        let mut last: [Option<(i64, Vec<Json>)>; 3] = [None, None, None];
        self.depth = 0;
        self.trace.clear();
        loop {
            // enabled: 0 arrive, 1 take an outgoing message, 2.. poll a woken handler
            let mut acts: Vec<usize> = vec![];
            if next < self.h.len() && tasks.len() < CONCURRENT {
                acts.push(0);
            }
            for (i, t) in tasks.iter().enumerate() {
                if t.woken() {
                    acts.push(2 + i);
                }
            }
            acts.push(1);
            let c = self.pick(acts.len());
            let act = acts[c];
            let mut finished = None;
            match act {
                0 => {
                    let e = &self.h[next];
                    let v = self.versions[next];
                    self.trace.push(format!("deliver {next}"));
                    let mut t = match e {
                        Ev::Open(u, t) => {
                            open[*u] = Some((*t, v));
                            texts_of.insert((*u, v), *t);
                            s.call(next, "textDocument/didOpen", open_params(&w.uri(*u), &w.texts[*t], v), false)
                        }
                        Ev::Change(u, ts) => {
                            if let Some(t) = ts.last() {
                                open[*u] = Some((*t, v));
                                texts_of.insert((*u, v), *t);
                            }
                            let changes: Vec<_> = ts.iter().map(|t| json!({"text": w.texts[*t]})).collect();
                            s.call(next, "textDocument/didChange", json!({"textDocument": {"uri": w.uri(*u), "version": v}, "contentChanges": changes}), false)
                        }
                        Ev::Close(u) => {
                            open[*u] = None;
                            s.call(next, "textDocument/didClose", json!({"textDocument": {"uri": w.uri(*u)}}), false)
                        }
                        Ev::Req(u, r) => {
                            seen.insert(next, vec![]);
                            s.call(next, REQUESTS[*r], request_params(REQUESTS[*r], &w.uri(*u), 1, 1), true)
                        }
                        Ev::Allow => s.call(
                            next,
                            "workspace/executeCommand",
                            json!({"command": "styx.allowExtension", "arguments": [{"command": "tool"}]}),
                            true,
                        ),
                    };
                    for (i, states) in seen.iter_mut() {
                        if let Ev::Req(u, _) = &self.h[*i] {
                            states.push(open[*u].map(|o| o.0));
                        }
                    }
                    match t.poll() {
                        Some(r) => finished = Some((next, r)),
                        None => tasks.push(t),
                    }
                    next += 1;
                }
                1 => {
                    let Some(m) = s.outgoing() else {
                        // nothing to take; if nothing else is possible either, this is the end
                        if acts.len() == 1 {
                            break;
                        }
                        return End::Disabled;
                    };
                    self.trace.push("take".into());
                    if m["method"] == "textDocument/publishDiagnostics" {
                        let Some(u) = (0..3).find(|u| m["params"]["uri"] == w.uri(*u)) else {
                            return End::Bad(format!("diagnostics for {}", m["params"]["uri"]));
                        };
                        let d = m["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                        match m["params"]["version"].as_i64() {
                            Some(v) => {
                                let Some(&t) = texts_of.get(&(u, v)) else {
                                    return End::Bad(format!("diagnostics for version {v}, which was never sent"));
                                };
                                if d != w.diagnostics(u, t) {
                                    return End::Bad(format!("the diagnostics of version {v} of {} are those of another text: {}", w.uri(u), json!(d)));
                                }
                                if let Some((before, _)) = &last[u]
                                    && *before > v
                                {
                                    return End::Bad(format!("diagnostics go back from version {before} to version {v}"));
                                }
                                last[u] = Some((v, d));
                            }
                            None => {
                                let v = last[u].as_ref().map_or(-1, |l| l.0);
                                last[u] = Some((v, d));
                            }
                        }
                    }
                }
                i => {
                    let t = &mut tasks[i - 2];
                    self.trace.push(format!("continue {}", t.event));
                    if let Some(r) = t.poll() {
                        let e = t.event;
                        tasks.remove(i - 2);
                        finished = Some((e, r));
                    }
                }
            }
            if let Some((e, reply)) = finished
                && let Ev::Req(u, r) = &self.h[e]
            {
                let Some(reply) = reply else { return End::Bad("a request is never answered".into()) };
                let states = &seen[&e];
                if !states.iter().any(|t| w.answer(*u, *t, *r) == reply["result"]) {
                    return End::Bad(format!(
                        "message {e} ({}) is answered {}, but for {:?} the answer is {}",
                        REQUESTS[*r],
                        reply["result"],
                        states[0].map(|t| &w.texts[t]),
                        w.answer(*u, states[0], *r)
                    ));
                }
                seen.remove(&e);
            }
        }
        if next < self.h.len() || !tasks.is_empty() {
            return End::Bad(format!("handlers {:?} never finish", tasks.iter().map(|t| t.event).collect::<Vec<_>>()));
        }
        for u in 0..3 {
            if self.h.iter().all(|e| !matches!(e, Ev::Open(x, _) if *x == u)) {
                continue;
            }
            match (&open[u], &last[u]) {
                (Some((t, v)), l) => {
                    let want = w.diagnostics(u, *t);
                    match l {
                        Some((lv, d)) if lv == v && *d == want => {}
                        l => return End::Bad(format!("in the end the client shows {l:?} for version {v} of {}, which has {}", w.uri(u), json!(want))),
                    }
                }
                (None, Some((_, d))) if d.is_empty() => {}
                (None, l) => return End::Bad(format!("in the end the client shows {l:?} for {}, which is closed", w.uri(u))),
            }
        }
        End::Done
    }
}

/// All schedules of one history.
pub fn explore(w: &World, h: &[Ev], l: &mut Local, name: &str) {
    let mut v = [0i64; 3];
    let versions: Vec<i64> = h
        .iter()
        .map(|e| match e {
            Ev::Open(u, _) | Ev::Change(u, _) => {
                v[*u] += 1;
                v[*u]
            }
            _ => 0,
        })
        .collect();
    let mut run = Run { w, h, versions: &versions, choices: vec![], trace: vec![], depth: 0 };
    loop {
        let end = match guarded(|| run.go()) {
            Ok(e) => e,
            Err(p) => End::Bad(format!("panic: {p}")),
        };
        run.choices.truncate(run.depth);
        match end {
            End::Disabled => {}
            End::Done => {
                l.exec(run.depth as u64);
                if l.executions % 977 == 1 {
                    l.sample(l.executions, json!({"history": describe(w, h), "schedule": run.trace.join(", ")}));
                }
                l.outcome(&format!("{h:?}{:?}", run.trace));
            }
            End::Bad(what) => {
                l.exec(run.depth as u64);
                l.violation(viol(format!("{name} {}", describe(w, h)), format!("{what}\nschedule: {}", run.trace.join(", "))));
                return;
            }
        }
        // next schedule
        loop {
            match run.choices.pop() {
                None => return,
                Some((c, n)) if c + 1 < n => {
                    run.choices.push((c + 1, n));
                    break;
                }
                _ => {}
            }
        }
    }
}

fn describe(w: &World, h: &[Ev]) -> String {
    h.iter()
        .map(|e| match e {
            Ev::Open(u, t) => format!("open {} {:?}", ["a", "b", "c"][*u], w.texts[*t]),
            Ev::Change(u, t) => format!("change {} {:?}", ["a", "b", "c"][*u], t.iter().map(|t| &w.texts[*t]).collect::<Vec<_>>()),
            Ev::Close(u) => format!("close {}", ["a", "b", "c"][*u]),
            Ev::Req(u, r) => format!("{} {}", REQUESTS[*r], ["a", "b", "c"][*u]),
            Ev::Allow => "allow".into(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

/// Every history of `n` messages about `docs` documents that the protocol allows; texts rotate.
fn histories(n: usize, docs: usize, rot: usize, texts: usize, out: &mut Vec<Vec<Ev>>) {
    fn go(n: usize, docs: usize, open: [bool; 3], text: usize, texts: usize, h: &mut Vec<Ev>, out: &mut Vec<Vec<Ev>>) {
        if n == 0 {
            out.push(h.clone());
            return;
        }
        let h_has_allow = h.contains(&Ev::Allow);
        let mut step = |e: Ev, open: [bool; 3], text: usize| {
            h.push(e);
            go(n - 1, docs, open, text % texts, texts, h, out);
            h.pop();
        };
        for u in 0..docs {
            // the second document only after the first
            if u > 0 && !open[0] && text == 0 {
                continue;
            }
            let with = |b: bool| {
                let mut o = open;
                o[u] = b;
                o
            };
            if open[u] {
                step(Ev::Change(u, vec![text]), open, text + 1);
                step(Ev::Close(u), with(false), text);
                if n == 1 {
                    step(Ev::Change(u, vec![text, (text + 1) % texts]), open, text + 2);
                    step(Ev::Change(u, vec![]), open, text);
                }
            } else {
                step(Ev::Open(u, text), with(true), text + 1);
            }
            step(Ev::Req(u, 1), open, text);
        }
        if open.iter().any(|o| *o) && !h_has_allow {
            step(Ev::Allow, open, text);
        }
    }
    go(n, docs, [false; 3], rot, texts, &mut vec![], out);
}

pub fn run(ctx: &Ctx, dir: &Path) {
    let w = World::new(dir);
    let texts = w.texts.len();

    let n = ctx.pick(4, 5);
    let mut hs = vec![];
    for k in 1..=n {
        for rot in 0..ctx.pick(2, 7) {
            histories(k, 2, rot * 3 % texts, texts, &mut hs);
        }
    }
    // a granted permission publishes everything again: shorter histories
    hs.retain(|h| h.iter().any(|e| matches!(e, Ev::Open(..))) && (h.len() < n || !h.contains(&Ev::Allow)));
    ctx.space(
        "histories",
        json!({"messages": n, "documents": 2, "handlers at once": CONCURRENT, "texts": texts}),
        hs.len() as u64,
        |i| describe(&w, &hs[i as usize]),
        |i, l| explore(&w, &hs[i as usize], l, "history"),
    );

    // every request after every change of text
    let pairs = Seqs::new(texts, 2, 2);
    let mut v = vec![];
    let mut reqs = vec![];
    for p in 0..pairs.total() {
        pairs.decode(p, &mut v);
        for r in 0..REQUESTS.len() {
            reqs.push(vec![Ev::Open(0, v[0]), Ev::Change(0, vec![v[1]]), Ev::Req(0, r)]);
            if ctx.thorough() {
                reqs.push(vec![Ev::Open(0, v[0]), Ev::Req(0, r), Ev::Change(0, vec![v[1]]), Ev::Req(0, r)]);
                reqs.push(vec![Ev::Open(0, v[0]), Ev::Change(0, vec![v[1]]), Ev::Close(0), Ev::Req(0, r), Ev::Open(0, v[0])]);
            }
        }
    }
    ctx.space(
        "requests",
        json!({"texts": texts, "requests": REQUESTS}),
        reqs.len() as u64,
        |i| describe(&w, &reqs[i as usize]),
        |i, l| explore(&w, &reqs[i as usize], l, "requests"),
    );
}
