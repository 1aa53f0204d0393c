//! Exploration framework: enumerates cases, runs them on the real code, records coverage,
//! known findings and violations, and writes the evidence file.

use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

use serde_json::{Value, json};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Failure of one case.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Bad(String),
    /// The property is broken in exactly the way of a listed known finding.
    Known(&'static str, String),
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Bad(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Bad(s.to_string())
    }
}

pub type R<T = ()> = Result<T, Fail>;

pub fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Bad(s.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::verif::core::Fail::Bad(format!($($a)*))); } };
}

/// FNV-1a, stable between runs.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fnv<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

/// Per-case recorder.
#[derive(Default)]
pub struct Rec {
    pub transitions: u64,
    pub states: Vec<u64>,
    pub evaluations: u64,
    pub note: Option<String>,
}
impl Rec {
    /// One transition of the real code executed.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A state of the system observed (canonical form hashed).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(fnv(t));
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
}

#[derive(Default)]
pub struct SuiteStats {
    pub cases: u64,
    pub evaluations: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub bounds: String,
    pub capped: bool,
    /// executions not judged because they did not repeat their schedule prefix
    pub diverged: u64,
    /// executions with more choice points than were branched on
    pub truncated: u64,
    pub wall_s: f64,
    pub skipped: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub suite: String,
    pub case: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub filter: Option<(String, String)>,
    pub threads: usize,
    pub suites: Mutex<BTreeMap<String, SuiteStats>>,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Mutex<BTreeMap<&'static str, (u64, String)>>,
    pub listed: HashSet<String>,
    pub started: Instant,
}

static ACTIVE: Mutex<BTreeMap<u64, (Instant, String)>> = Mutex::new(BTreeMap::new());
static ACTIVE_ID: AtomicU64 = AtomicU64::new(0);
pub static CASE_TIMEOUT_S: AtomicU64 = AtomicU64::new(180);
thread_local! { static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub static MAX_VIOLATIONS: usize = 3;

pub struct Suite<'a> {
    pub ctx: &'a Ctx,
    pub name: String,
    stop: AtomicBool,
    budget: Option<Instant>,
    start: Instant,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Pick a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn suite<'a>(&'a self, name: &str, bounds: impl Into<String>) -> Suite<'a> {
        {
            let mut s = self.suites.lock().unwrap();
            let e = s.entry(name.to_string()).or_default();
            e.bounds = bounds.into();
        }
        let secs = self.by(240u64, 3000u64);
        Suite {
            ctx: self,
            name: name.to_string(),
            stop: AtomicBool::new(false),
            budget: Some(Instant::now() + Duration::from_secs(secs)),
            start: Instant::now(),
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
}

impl Drop for Suite<'_> {
    fn drop(&mut self) {
        let mut s = self.ctx.suites.lock().unwrap();
        let e = s.entry(self.name.clone()).or_default();
        e.wall_s += self.start.elapsed().as_secs_f64();
    }
}

impl<'a> Suite<'a> {
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    /// Run one case (identified by `id`) on the real code.
    pub fn case(&self, id: &str, f: impl FnOnce(&mut Rec) -> R) {
        if self.stopped() {
            return;
        }
        if let Some((s, c)) = &self.ctx.filter {
            if s != &self.name || c != id {
                return;
            }
        }
        if let Some(b) = self.budget {
            if Instant::now() > b {
                let mut s = self.ctx.suites.lock().unwrap();
                s.entry(self.name.clone()).or_default().capped = true;
                self.stop.store(true, Ordering::Relaxed);
                return;
            }
        }
        let aid = ACTIVE_ID.fetch_add(1, Ordering::Relaxed);
        ACTIVE.lock().unwrap().insert(
            aid,
            (Instant::now(), format!("{}\u{1}{}", self.name, id)),
        );
        let mut rec = Rec::default();
        IN_CASE.with(|c| c.set(true));
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut rec)));
        IN_CASE.with(|c| c.set(false));
        ACTIVE.lock().unwrap().remove(&aid);
        let res = match res {
            Ok(r) => r,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                let loc = LAST_PANIC.with(|l| l.borrow().clone());
                Err(Fail::Bad(format!("panic: {m} ({loc})")))
            }
        };
        {
            let mut s = self.ctx.suites.lock().unwrap();
            let e = s.entry(self.name.clone()).or_default();
            e.cases += 1;
            e.evaluations += rec.evaluations;
            e.transitions += rec.transitions;
            e.states.extend(rec.states);
            let n = e.cases;
            if e.samples.len() < 3 && (n == 1 || n == 7 || n == 100) {
                let note = rec.note.map(|n| format!(" => {n}")).unwrap_or_default();
                e.samples.push(format!("{id}{note}"));
            }
        }
        match res {
            Ok(()) => {}
            Err(Fail::Known(k, m)) if self.ctx.listed.contains(k) => {
                let mut g = self.ctx.known.lock().unwrap();
                let e = g.entry(k).or_insert_with(|| (0, format!("{} [{}]: {}", self.name, id, m)));
                e.0 += 1;
            }
            Err(Fail::Known(k, m)) => self.violation(id, format!("(finding {k}) {m}")),
            Err(Fail::Bad(m)) => self.violation(id, m),
        }
    }

    pub fn violation(&self, id: &str, msg: String) {
        let mut v = self.ctx.violations.lock().unwrap();
        if v.iter().filter(|x| x.suite == self.name).count() < MAX_VIOLATIONS {
            v.push(Violation {
                suite: self.name.clone(),
                case: id.to_string(),
                msg,
            });
        } else {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Run cases 0..n in parallel.  `f(i, &Suite)` should call `case`.
    pub fn par(&self, n: usize, f: impl Fn(usize, &Suite<'a>) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = self.ctx.threads.min(n.max(1));
        let next = &next;
        let f = &f;
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        loop {
                            if self.stopped() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            f(i, self);
                        }
                    })
                    .expect("spawn");
            }
        });
    }

    /// Run every item as one case in parallel.
    pub fn par_cases<T: Sync>(
        &self,
        items: &[T],
        id: impl Fn(&T) -> String + Sync,
        f: impl Fn(&T, &mut Rec) -> R + Sync,
    ) {
        self.par(items.len(), |i, s| {
            let it = &items[i];
            s.case(&id(it), |rec| f(it, rec));
        });
    }
}

pub fn watchdog(ctx: &'static Ctx) {
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let lim = Duration::from_secs(CASE_TIMEOUT_S.load(Ordering::Relaxed));
            let hit = ACTIVE
                .lock()
                .unwrap()
                .values()
                .find(|(t, _)| t.elapsed() > lim)
                .map(|(_, n)| n.clone());
            if let Some(n) = hit {
                let (s, c) = n.split_once('\u{1}').unwrap_or((&n, ""));
                ctx.violations.lock().unwrap().push(Violation {
                    suite: s.to_string(),
                    case: c.to_string(),
                    msg: format!("case did not finish within {}s (hang or livelock)", lim.as_secs()),
                });
                let code = finish(ctx);
                std::process::exit(code);
            }
        }
    });
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_case = IN_CASE.try_with(|c| c.get()).unwrap_or(false);
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if in_case {
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
        } else if std::env::var("VERIF_PANICS").is_ok() {
            default(info);
        }
    }));
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// Write evidence, print verdict lines, return the exit code.
pub fn finish(ctx: &Ctx) -> i32 {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(dir.join("replay"));
    let suites = ctx.suites.lock().unwrap();
    let mut cases = 0;
    let mut evals = 0;
    let mut trans = 0;
    let mut states = 0;
    let mut samples = vec![];
    let mut parts = serde_json::Map::new();
    let mut exhaustive = true;
    for (n, s) in suites.iter() {
        cases += s.cases;
        evals += s.evaluations;
        trans += s.transitions;
        states += s.states.len();
        exhaustive &= !s.capped && s.skipped.is_none() && s.diverged == 0 && s.truncated == 0;
        for x in &s.samples {
            samples.push(json!(format!("{n}: {x}")));
        }
        parts.insert(
            n.clone(),
            json!({"bounds": s.bounds, "executions": s.cases, "oracle_evaluations": s.evaluations,
                   "transitions": s.transitions, "distinct_states": s.states.len(),
                   "hit_time_cap": s.capped, "diverged_not_judged": s.diverged, "branching_truncated": s.truncated, "skipped": s.skipped, "wall_s": s.wall_s}),
        );
    }
    let viol = ctx.violations.lock().unwrap();
    let known = ctx.known.lock().unwrap();
    let ev = json!({
        "property": ctx.prop, "tier": if ctx.thorough() {"thorough"} else {"quick"}, "seed": ctx.seed,
        "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": cases,
            "samples": samples, "exhaustive": exhaustive, "oracle_evaluations": evals,
            "suites": Value::Object(parts),
            "known_findings_seen": known.iter().map(|(k,v)| json!({"id":k,"executions":v.0,"first":v.1})).collect::<Vec<_>>(),
        },
        "assumptions": [
            "the explored alphabet, depth and environment answers are those stated per suite under coverage.suites.*.bounds",
            "the closed third-party crate `aisle` (unavailable offline) is replaced by the stand-in in /verif/stubs/aisle"
        ],
        "wall_s": ctx.started.elapsed().as_secs_f64(),
        "violations": viol.len(),
    });
    if ctx.filter.is_none() {
        let p = dir.join(format!("{}.json", ctx.prop));
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{}: executions={cases} states={states} transitions={trans} oracle_evaluations={evals} wall={:.1}s",
        ctx.prop,
        ctx.started.elapsed().as_secs_f64()
    );
    for (n, s) in suites.iter() {
        println!(
            "  {n}: executions={} states={} transitions={} evals={} {:.1}s{}{} [{}]",
            s.cases, s.states.len(), s.transitions, s.evaluations, s.wall_s,
            match (s.capped, s.diverged, s.truncated) {
                (true, ..) => " TIME-CAPPED".to_string(),
                (_, 0, 0) => String::new(),
                (_, d, t) => format!(" diverged={d} truncated={t}"),
            },
            s.skipped.as_ref().map(|x| format!(" SKIPPED: {x}")).unwrap_or_default(),
            s.bounds
        );
    }
    for (k, v) in known.iter() {
        println!("KNOWN-FINDING: property={} {k} ({} executions), e.g. {}", ctx.prop, v.0, one_line(&v.1));
    }
    for (i, v) in viol.iter().enumerate() {
        let p = dir.join("replay").join(format!("{}-{i}.json", ctx.prop));
        let _ = std::fs::write(
            &p,
            serde_json::to_string_pretty(&json!({"property": ctx.prop, "suite": v.suite, "case": v.case, "message": v.msg,
                "tier": if ctx.thorough() {"thorough"} else {"quick"},
                "replay_cmd": format!("bash /verif/check.sh {} replay {}", ctx.prop, p.display())})).unwrap(),
        );
        println!("VIOLATION property={} replay={}", ctx.prop, p.display());
        println!("  suite={} case={}\n  {}", v.suite, v.case, v.msg.chars().take(4000).collect::<String>());
    }
    if viol.is_empty() { 0 } else { 1 }
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ").chars().take(400).collect()
}

/// All sequences over `alphabet` of length exactly `len`.
pub fn sequences<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::with_capacity(out.len() * alphabet.len());
        for s in &out {
            for a in alphabet {
                let mut t = s.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        out = next;
    }
    out
}

/// All sequences up to `len`, shortest first.
pub fn sequences_upto<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    for l in 1..=len {
        out.extend(sequences(alphabet, l));
    }
    out
}

/// Choice-point explorer: stateless, deviation bounded depth-first search.
///
/// `run(prefix)` executes the real code, taking `prefix[i]` at choice point `i` and 0 afterwards, and
/// returns for every choice point the number of alternatives and the choice taken.
pub struct Chooser {
    prefix: Vec<usize>,
    pub taken: Vec<(usize, usize)>, // (choice, alternatives)
    pub diverged: bool,
}
impl Chooser {
    pub fn new(prefix: Vec<usize>) -> Self {
        Chooser { prefix, taken: vec![], diverged: false }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let i = self.taken.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c >= n {
            self.diverged = true;
            self.taken.push((n - 1, n));
            return n - 1;
        }
        self.taken.push((c, n));
        c
    }
}

pub fn choices_id(c: &[usize]) -> String {
    // run-length friendly: list only deviations as idx:choice
    let mut s = String::new();
    for (i, x) in c.iter().enumerate() {
        if *x != 0 {
            s.push_str(&format!("{i}:{x},"));
        }
    }
    if s.is_empty() { "-".into() } else { s }
}

/// Explore every choice sequence with at most `bound` non-default choices.
/// `run(suite, id, chooser)` runs one execution as a case.
pub fn explore<'a>(
    suite: &Suite<'a>,
    prefix_id: &str,
    bound: usize,
    max_points: usize,
    run: &(dyn Fn(&mut Chooser, &mut Rec) -> R + Sync),
) {
    fn dev(c: &[usize]) -> usize {
        c.iter().filter(|x| **x != 0).count()
    }
    // Iterate the bound: level by level so that the first counterexample has fewest deviations.
    let mut frontier: Vec<Vec<usize>> = vec![vec![]];
    for level in 0..=bound {
        let next: Mutex<Vec<Vec<usize>>> = Mutex::new(vec![]);
        suite.par(frontier.len(), |i, s| {
            let prefix = frontier[i].clone();
            let id = format!("{prefix_id}#{}", choices_id(&prefix));
            if let Some((sn, c)) = &s.ctx.filter {
                // replay: run only the wanted execution directly
                if sn != &s.name || !c.starts_with(prefix_id) {
                    return;
                }
            }
            let mut ch = Chooser::new(prefix.clone());
            let filtered = s.ctx.filter.as_ref().is_some_and(|(_, c)| c != &id);
            if filtered {
                let mut rec = Rec::default();
                let _ = catch_unwind(AssertUnwindSafe(|| run(&mut ch, &mut rec)));
            } else {
                s.case(&id, |rec| {
                    let r = run(&mut ch, rec);
                    if ch.diverged {
                        rec.note = Some("diverged (nondeterminism outside the scheduler), not judged".into());
                        return Ok(());
                    }
                    r
                });
            }
            if ch.diverged || (level < bound && ch.taken.len() > max_points) {
                let mut g = s.ctx.suites.lock().unwrap();
                let e = g.entry(s.name.clone()).or_default();
                if ch.diverged {
                    e.diverged += 1;
                } else {
                    e.truncated += 1;
                }
            }
            if level < bound {
                let mut out = vec![];
                let lim = ch.taken.len().min(max_points);
                for k in prefix.len()..lim {
                    let n = ch.taken[k].1;
                    for alt in 1..n {
                        let mut p: Vec<usize> = ch.taken[..k].iter().map(|x| x.0).collect();
                        p.push(alt);
                        out.push(p);
                    }
                }
                next.lock().unwrap().extend(out);
            }
        });
        let mut n = next.into_inner().unwrap();
        n.sort();
        frontier = n;
        if suite.stopped() {
            break;
        }
    }
}

/// Known-findings file: lines `known: property=<id> id=<KF> ...` and `fixed: property=<id> <commit> ...`.
pub fn parse_known(path: &std::path::Path, prop: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let Some(rest) = l.strip_prefix("known: ") else { continue };
            let mut p = None;
            let mut id = None;
            for w in rest.split_whitespace().take(2) {
                if let Some(x) = w.strip_prefix("property=") {
                    p = Some(x);
                }
                if let Some(x) = w.strip_prefix("id=") {
                    id = Some(x);
                }
            }
            if p == Some(prop) {
                if let Some(id) = id {
                    out.insert(id.to_string());
                }
            }
        }
    }
    out
}
