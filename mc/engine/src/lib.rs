//! Exhaustive-enumeration engine shared by every check.
//!
//! A check explores a finite space of executions (token sequences, operation histories, fault
//! schedules, ...) completely, in a fixed order, on all cores; every execution runs the real code
//! and is compared with a reference model.  Nothing is sampled.  The engine counts what was
//! actually executed, writes the evidence file, turns disagreements into replayable artefacts and
//! matches them against the committed list of known findings.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use serde_json::{Value as Json, json};

/// Where /verif is (the checks are started in it, but do not depend on that).
pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn repo_dir() -> PathBuf {
    std::env::var_os("REPO_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/repo"))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A disagreement between the real code and the property.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Violation {
    /// Size used to pick the smallest counterexample.
    pub size: usize,
    /// Identity of the failing input / history (matched against the known findings).
    pub key: String,
    /// What went wrong.
    pub what: String,
}

pub fn viol(key: impl Into<String>, what: impl Into<String>) -> Violation {
    let key = key.into();
    Violation { size: key.len(), key, what: what.into() }
}

#[derive(Default)]
struct Totals {
    spaces: Vec<Json>,
    executions: u64,
    steps: u64,
    outcomes: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    violation_count: u64,
    samples: Vec<Json>,
    extra: BTreeMap<String, Json>,
    truncated: bool,
}

/// Per-thread accumulator.
pub struct Local {
    pub executions: u64,
    pub steps: u64,
    outcomes: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    violations: Vec<Violation>,
    violation_count: u64,
    samples: Vec<(u64, Json)>,
}

impl Local {
    fn new() -> Self {
        Local {
            executions: 0,
            steps: 0,
            outcomes: HashSet::new(),
            classes: BTreeMap::new(),
            violations: Vec::new(),
            violation_count: 0,
            samples: Vec::new(),
        }
    }
    /// One execution of the real code, of `steps` operations.
    pub fn exec(&mut self, steps: u64) {
        self.executions += 1;
        self.steps += steps;
    }
    /// Record the (canonical) observed outcome; distinct outcomes are the model states.
    pub fn outcome<H: Hash + ?Sized>(&mut self, h: &H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.outcomes.insert(s.finish());
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn sample(&mut self, idx: u64, j: Json) {
        if self.samples.len() < 4 {
            self.samples.push((idx, j));
        }
    }
    pub fn violation(&mut self, v: Violation) {
        self.violation_count += 1;
        self.violations.push(v);
        if self.violations.len() > 4000 {
            self.violations.sort();
            self.violations.truncate(2000);
        }
    }
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<String>,
    start: Instant,
    threads: usize,
    tot: Mutex<Totals>,
    level: &'static str,
    assumptions: Mutex<Vec<String>>,
    current: Arc<Vec<Mutex<Option<(Instant, String)>>>>,
    limit_ms: Arc<AtomicU64>,
    debug_all: bool,
    space_no: AtomicU64,
    only: Option<(u64, u64)>,
    shm: Shm,
}

/// What each worker is executing right now, readable by the parent process if this one dies.
pub struct Shm {
    base: *mut u8,
}
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}
const SLOT: usize = 8192;
const SLOTS: usize = 128;

impl Shm {
    fn map(path: &std::path::Path) -> Shm {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shm file");
        f.set_len((SLOT * SLOTS) as u64).unwrap();
        let base = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * SLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(base != libc::MAP_FAILED, "mmap");
        Shm { base: base as *mut u8 }
    }
    fn publish(&self, slot: usize, space: u64, idx: u64, key: &str) {
        if self.base.is_null() || slot >= SLOTS {
            return;
        }
        unsafe {
            let p = self.base.add(slot * SLOT);
            let n = key.len().min(SLOT - 64);
            std::ptr::copy_nonoverlapping(key.as_ptr(), p.add(32), n);
            (p.add(8) as *mut u64).write_volatile(space);
            (p.add(16) as *mut u64).write_volatile(idx);
            (p.add(24) as *mut u64).write_volatile(n as u64);
            (p as *mut u64).write_volatile(1);
        }
    }
    fn clear(&self, slot: usize) {
        if self.base.is_null() || slot >= SLOTS {
            return;
        }
        unsafe { (self.base.add(slot * SLOT) as *mut u64).write_volatile(0) }
    }
    fn in_flight(&self) -> Vec<(u64, u64, String)> {
        let mut v = vec![];
        for s in 0..SLOTS {
            unsafe {
                let p = self.base.add(s * SLOT);
                if (p as *const u64).read_volatile() == 1 {
                    let space = (p.add(8) as *const u64).read_volatile();
                    let idx = (p.add(16) as *const u64).read_volatile();
                    let n = (p.add(24) as *const u64).read_volatile() as usize;
                    let b = std::slice::from_raw_parts(p.add(32), n.min(SLOT - 64));
                    v.push((space, idx, String::from_utf8_lossy(b).into_owned()));
                }
            }
        }
        v
    }
}

/// Run the check in a child process, so that an execution which kills the process (stack
/// overflow, abort, out of memory) becomes a reproducible counterexample instead of an engine
/// error.  A crash only counts when re-running exactly that execution kills the process again.
pub fn supervise() {
    if std::env::var_os("MC_CHILD").is_some() {
        return;
    }
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("current_exe");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let path = std::env::temp_dir().join(format!("mc-shm-{}", std::process::id()));
    let run = |only: Option<(u64, u64)>| {
        let mut c = std::process::Command::new(&exe);
        c.args(&args).env("MC_CHILD", "1").env("MC_SHM", &path);
        if let Some((s, i)) = only {
            c.env("MC_ONLY", format!("{s}:{i}"));
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().expect("spawn child")
    };
    let shm = Shm::map(&path);
    let t0 = Instant::now();
    let st = run(None);
    let code = match st.code() {
        Some(c) => c,
        None => {
            let sig = st.signal().unwrap_or(0);
            let mut code = 3;
            eprintln!("child died with signal {sig}; re-running the executions in flight");
            if matches!(sig, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL) {
                let prop = args.first().cloned().unwrap_or_default();
                for (space, idx, key) in shm.in_flight() {
                    let again = run(Some((space, idx)));
                    if again.signal().is_some() {
                        let v = viol(key, format!("the process is killed by signal {} (abort / stack overflow / out of memory)", again.signal().unwrap()));
                        let known = known_findings(&prop);
                        if known.iter().any(|k| k.0 == v.key) {
                            continue;
                        }
                        let p = write_replay(&prop, &v);
                        let ev = json!({"property": prop, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()), "seed": 1,
                            "level": "model_checking", "coverage": {"states": 0, "transitions": 0,
                            "traces_validated_against_impl": 0, "samples": [{"crashing": v.key}]},
                            "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                        let _ = std::fs::write(verif_dir().join("evidence").join(format!("{prop}.json")), ev.to_string());
                        println!("  counterexample: {:?}: {}", v.key, v.what);
                        println!("VIOLATION property={prop} replay={}", p.display());
                        code = 1;
                        break;
                    }
                }
            }
            code
        }
    };
    let _ = std::fs::remove_file(&path);
    std::process::exit(code);
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = msg);
            if !QUIET.with(|q| q.get()) {
                prev(info);
            }
        }));
    });
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().replace('\n', " ")))
}

impl Ctx {
    pub fn new(property: &str, level: &'static str) -> Self {
        install_hook();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        // Memory cap: an execution that allocates without bound must not take the sandbox down.
        unsafe {
            let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let replay = std::env::args().skip_while(|a| a != "--replay").nth(1);
        let ctx = Ctx {
            property: property.to_string(),
            tier,
            seed,
            replay,
            start: Instant::now(),
            threads,
            tot: Mutex::new(Totals::default()),
            level,
            assumptions: Mutex::new(vec![]),
            current: Arc::new((0..threads + 1).map(|_| Mutex::new(None)).collect()),
            limit_ms: Arc::new(AtomicU64::new(20_000)),
            debug_all: std::env::var_os("MC_DEBUG").is_some(),
            space_no: AtomicU64::new(0),
            only: std::env::var("MC_ONLY").ok().and_then(|s| {
                let (a, b) = s.split_once(':')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            }),
            shm: match std::env::var_os("MC_SHM") {
                Some(p) => Shm::map(std::path::Path::new(&p)),
                None => Shm { base: std::ptr::null_mut() },
            },
        };
        ctx.spawn_watchdog();
        ctx
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Pick a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn threads(&self) -> usize {
        self.threads
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn extra(&self, k: &str, v: Json) {
        self.tot.lock().unwrap().extra.insert(k.into(), v);
    }

    /// How long one execution may take (20 s unless set).
    pub fn set_limit(&self, d: Duration) {
        self.limit_ms.store(d.as_millis() as u64, Ordering::Relaxed);
    }

    /// A single execution that runs longer than the limit is a termination violation.
    fn spawn_watchdog(&self) {
        let cur = self.current.clone();
        let limit_ms = self.limit_ms.clone();
        let prop = self.property.clone();
        let tier = self.tier;
        let seed = self.seed;
        let level = self.level;
        let start = self.start;
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let limit = Duration::from_millis(limit_ms.load(Ordering::Relaxed));
                for c in cur.iter() {
                    let g = c.lock().unwrap();
                    if let Some((t, key)) = g.as_ref()
                        && t.elapsed() > limit
                    {
                        let what = format!("execution did not terminate within {limit:?}");
                        let v = viol(key.clone(), what);
                        let p = write_replay(&prop, &v);
                        let ev = json!({"property": prop, "tier": if tier==Tier::Quick {"quick"} else {"thorough"},
                            "seed": seed, "level": level,
                            "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                "samples": [{"non_terminating": v.key}]},
                            "wall_s": start.elapsed().as_secs_f64(), "violations": 1});
                        let _ = std::fs::write(verif_dir().join("evidence").join(format!("{prop}.json")), ev.to_string());
                        println!("  counterexample: {:?}: {}", v.key, v.what);
                        println!("VIOLATION property={prop} replay={}", p.display());
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    /// Explore indices 0..total in parallel; `body(worker, idx, local, set_key)`.
    /// `describe(idx)` gives the identity of an execution (for the watchdog and panics).
    pub fn space(
        &self,
        name: &str,
        bound: Json,
        total: u64,
        describe: impl Fn(u64) -> String + Sync,
        body: impl Fn(u64, &mut Local) + Sync,
    ) {
        let t0 = Instant::now();
        let space_no = self.space_no.fetch_add(1, Ordering::Relaxed);
        let mut only_idx = None;
        if let Some((sn, ix)) = self.only {
            if sn != space_no {
                return;
            }
            only_idx = Some(ix);
        }
        let shm = &self.shm;
        let next = AtomicU64::new(only_idx.unwrap_or(0));
        let total_pts = total;
        let total = only_idx.map(|i| i + 1).unwrap_or(total);
        let chunk = (total / (self.threads as u64 * 64)).clamp(1, 4096);
        let stop = AtomicBool::new(false);
        let nviol = AtomicUsize::new(0);
        let locals: Vec<Local> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads)
                .map(|w| {
                    let next = &next;
                    let body = &body;
                    let describe = &describe;
                    let stop = &stop;
                    let nviol = &nviol;
                    let slot = &self.current[w];
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut l = Local::new();
                            loop {
                                let a = next.fetch_add(chunk, Ordering::Relaxed);
                                if a >= total || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                for i in a..(a + chunk).min(total) {
                                    if let Some(o) = only_idx && o != i {
                                        continue;
                                    }
                                    let key = describe(i);
                                    shm.publish(w, space_no, i, &key);
                                    *slot.lock().unwrap() = Some((Instant::now(), key));
                                    let before = l.violation_count;
                                    if let Err(p) = guarded(|| body(i, &mut l)) {
                                        l.violation(viol(describe(i), format!("panic: {p}")));
                                    }
                                    if l.violation_count != before
                                        && nviol.fetch_add(1, Ordering::Relaxed) > 200_000
                                    {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                *slot.lock().unwrap() = None;
                                shm.clear(w);
                            }
                            shm.clear(w);
                            *slot.lock().unwrap() = None;
                            l
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut t = self.tot.lock().unwrap();
        let mut ex = 0;
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut outs: HashSet<u64> = HashSet::new();
        let mut smp: Vec<(u64, Json)> = vec![];
        for l in locals {
            ex += l.executions;
            t.steps += l.steps;
            outs.extend(l.outcomes);
            for (k, v) in l.classes {
                *classes.entry(k.to_string()).or_insert(0) += v;
            }
            t.violation_count += l.violation_count;
            t.violations.extend(l.violations);
            smp.extend(l.samples);
        }
        smp.sort_by_key(|x| x.0);
        t.samples.extend(smp.into_iter().take(2).map(|x| x.1));
        t.executions += ex;
        for (k, v) in &classes {
            *t.classes.entry(k.clone()).or_insert(0) += v;
        }
        let complete = !stop.load(Ordering::Relaxed);
        t.truncated |= !complete;
        let nouts = outs.len();
        t.outcomes.extend(outs);
        println!(
            "[{}] space {name}: {ex} executions of {total_pts} points, {nouts} distinct outcomes, classes {classes:?}, {:.1}s{}",
            self.property,
            t0.elapsed().as_secs_f64(),
            if complete { "" } else { " (stopped early: too many violations)" }
        );
        t.spaces.push(json!({"space": name, "bound": bound, "points": total_pts, "executions": ex,
            "distinct_outcomes": nouts, "classes": classes, "complete": complete,
            "wall_s": t0.elapsed().as_secs_f64()}));
    }

    /// Run one sequential exploration (e.g. a breadth-first search) as a named space.
    pub fn sequential(&self, name: &str, bound: Json, body: impl FnOnce(&mut Local)) {
        let t0 = Instant::now();
        let space_no = self.space_no.fetch_add(1, Ordering::Relaxed);
        if let Some((sn, _)) = self.only && sn != space_no {
            return;
        }
        self.shm.publish(0, space_no, 0, name);
        let mut l = Local::new();
        if let Err(p) = guarded(|| body(&mut l)) {
            l.violation(viol(format!("{name}"), format!("panic: {p}")));
        }
        self.shm.clear(0);
        let mut t = self.tot.lock().unwrap();
        t.executions += l.executions;
        t.steps += l.steps;
        let nouts = l.outcomes.len();
        t.outcomes.extend(l.outcomes);
        t.violation_count += l.violation_count;
        t.violations.extend(l.violations);
        l.samples.sort_by_key(|x| x.0);
        t.samples.extend(l.samples.into_iter().take(2).map(|x| x.1));
        let classes: BTreeMap<String, u64> =
            l.classes.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        for (k, v) in &classes {
            *t.classes.entry(k.clone()).or_insert(0) += v;
        }
        println!(
            "[{}] space {name}: {} executions, {nouts} distinct outcomes, classes {classes:?}, {:.1}s",
            self.property,
            l.executions,
            t0.elapsed().as_secs_f64()
        );
        t.spaces.push(json!({"space": name, "bound": bound, "executions": l.executions,
            "distinct_outcomes": nouts, "classes": classes, "complete": true,
            "wall_s": t0.elapsed().as_secs_f64()}));
    }

    /// Write evidence, print verdict, exit.
    pub fn finish(self) -> ! {
        if self.only.is_some() {
            std::process::exit(0);
        }
        let mut t = self.tot.into_inner().unwrap();
        t.violations.sort();
        t.violations.dedup_by(|a, b| a.key == b.key);
        let known = known_findings(&self.property);
        let mut fresh: Vec<&Violation> = vec![];
        let mut seen_known: Vec<(String, String)> = vec![];
        for v in &t.violations {
            if let Some(k) = known.iter().find(|k| k.0 == v.key) {
                seen_known.push(k.clone());
            } else {
                fresh.push(v);
            }
        }
        for (k, what) in &seen_known {
            println!("KNOWN-FINDING: property={} {} (input {})", self.property, what, json!(k));
        }
        let samples = if t.samples.is_empty() { vec![json!("none")] } else { t.samples.clone() };
        let mut cov = serde_json::Map::new();
        match self.level {
            "model_checking" => {
                cov.insert("states".into(), json!(t.outcomes.len()));
                cov.insert("transitions".into(), json!(t.steps));
                cov.insert("traces_validated_against_impl".into(), json!(t.executions));
                cov.insert("counting".into(), json!("states: distinct canonical outcomes reached by the explored executions; transitions: operations/lexemes executed in total; traces_validated_against_impl: executions run on the real code and compared with the reference model"));
            }
            _ => {
                cov.insert("evaluations".into(), json!(t.executions));
                cov.insert("distinct_nontrivial".into(), json!(t.outcomes.len()));
                cov.insert("rule".into(), json!("every point of the listed finite spaces is executed once; two executions are distinct when their canonical outcome differs"));
                cov.insert("steps".into(), json!(t.steps));
            }
        }
        cov.insert("samples".into(), json!(samples));
        cov.insert("exhaustive".into(), json!(!t.truncated));
        cov.insert("spaces".into(), json!(t.spaces));
        cov.insert("classes".into(), json!(t.classes));
        for (k, v) in t.extra {
            cov.insert(k, v);
        }
        let wall = self.start.elapsed().as_secs_f64();
        let ev = json!({
            "property": self.property,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall,
            "violations": fresh.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&ev).unwrap())
            .expect("write evidence");
        if fresh.is_empty() {
            println!(
                "OK property={} executions={} distinct={} wall={:.1}s",
                self.property, t.executions, t.outcomes.len(), wall
            );
            std::process::exit(0);
        }
        let show = if self.debug_all { std::env::var("MC_DEBUG").ok().and_then(|s| s.parse().ok()).unwrap_or(400) } else { 8 };
        for v in fresh.iter().take(show) {
            println!("  counterexample: {:?}: {}", v.key, v.what);
        }
        println!("  {} counterexamples in total ({} raw)", fresh.len(), t.violation_count);
        let p = write_replay(&self.property, fresh[0]);
        println!("VIOLATION property={} replay={}", self.property, p.display());
        std::process::exit(1);
    }
}

fn write_replay(prop: &str, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}.json"));
    let _ = std::fs::write(
        &p,
        serde_json::to_string_pretty(&json!({"property": prop, "input": v.key, "what": v.what,
            "replay_with": format!("the failing input/history is the `input` string; re-run it with: cargo run (see DESIGN.md, Replaying) -- {prop} --replay <this file>")}))
        .unwrap(),
    );
    p
}

/// `finding: property=C03 key=<json string> <what>` lines of /verif/known-findings.txt.
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else { continue };
        let Some((p, rest)) = rest.split_once(' ') else { continue };
        if p != prop {
            continue;
        }
        let Some(rest) = rest.strip_prefix("key=") else { continue };
        let mut de = serde_json::Deserializer::from_str(rest).into_iter::<String>();
        if let Some(Ok(k)) = de.next() {
            let off = de.byte_offset();
            out.push((k, rest[off..].trim().to_string()));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Enumeration helpers
// ---------------------------------------------------------------------------------------------

/// All sequences over an alphabet of `a` symbols with length in `min..=max`.
#[derive(Clone, Debug)]
pub struct Seqs {
    pub a: u64,
    pub min: u32,
    pub max: u32,
}

impl Seqs {
    pub fn new(a: usize, min: u32, max: u32) -> Self {
        Seqs { a: a as u64, min, max }
    }
    pub fn total(&self) -> u64 {
        (self.min..=self.max).map(|k| self.a.pow(k)).sum()
    }
    /// Decode index to symbols (shortest sequences first).
    pub fn decode(&self, mut idx: u64, out: &mut Vec<usize>) {
        out.clear();
        let mut k = self.min;
        loop {
            let n = self.a.pow(k);
            if idx < n {
                break;
            }
            idx -= n;
            k += 1;
        }
        out.resize(k as usize, 0);
        for i in (0..k as usize).rev() {
            out[i] = (idx % self.a) as usize;
            idx /= self.a;
        }
    }
    pub fn concat(&self, idx: u64, alphabet: &[&str]) -> String {
        let mut v = Vec::new();
        self.decode(idx, &mut v);
        v.iter().map(|&i| alphabet[i]).collect()
    }
}

/// Mixed-radix product of choice counts.
pub struct Product(pub Vec<u64>);
impl Product {
    pub fn total(&self) -> u64 {
        self.0.iter().product()
    }
    pub fn decode(&self, mut idx: u64) -> Vec<usize> {
        let mut v = vec![0; self.0.len()];
        for i in (0..self.0.len()).rev() {
            v[i] = (idx % self.0[i]) as usize;
            idx /= self.0[i];
        }
        v
    }
}
