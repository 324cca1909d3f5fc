//! Exhaustive explorer: numbered executions of finite families, run in parallel, first failure in
//! enumeration order reported and replayable by its number.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// A failed oracle. `key` names a specific input for the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub key: Option<String>,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, key: None }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::from(format!($($a)*))); } };
}

pub struct Family {
    pub name: String,
    pub rule: String,
    pub n: u64,
    pub hang_s: u64,
    pub serial: bool,
    pub run: Box<dyn Fn(u64, &mut Exec) -> Res + Sync + Send>,
}

impl Family {
    pub fn new(
        name: impl Into<String>,
        rule: impl Into<String>,
        n: u64,
        run: impl Fn(u64, &mut Exec) -> Res + Sync + Send + 'static,
    ) -> Self {
        Family {
            name: name.into(),
            rule: rule.into(),
            n,
            hang_s: 90,
            serial: false,
            run: Box::new(run),
        }
    }
    pub fn hang(mut self, s: u64) -> Self {
        self.hang_s = s;
        self
    }
}

/// Per-execution recorder.
pub struct Exec {
    transitions: u64,
    traces: u64,
    undecided: u64,
    states: Vec<u64>,
    outcomes: Vec<u64>,
    pub describe: bool,
    pub notes: Vec<String>,
    known: Vec<(String, String)>,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Exec {
    fn new(describe: bool) -> Self {
        Exec {
            transitions: 0,
            traces: 0,
            undecided: 0,
            states: vec![],
            outcomes: vec![],
            describe,
            notes: vec![],
            known: vec![],
        }
    }
    /// A recorder whose contents are thrown away.
    pub fn scratch() -> Self {
        Exec::new(false)
    }
    /// `n` operations executed on the real code.
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A complete execution compared with the oracle.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// A model state reached.
    pub fn state<T: Hash>(&mut self, t: T) {
        if self.states.len() < 200_000 {
            self.states.push(h64(&t));
        }
    }
    /// An observed outcome (to show that executions differ).
    pub fn outcome<T: Hash>(&mut self, t: T) {
        self.outcomes.push(h64(&t));
    }
    /// Parts of an execution where the oracle allowed more than one answer.
    pub fn undecided(&mut self, n: u64) {
        self.undecided += n;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let s = f();
            self.notes.push(s);
        }
    }
    /// A deviation which is listed as known finding when its key is listed, otherwise a failure.
    pub fn finding(&mut self, key: &str, msg: String) -> Res {
        if known_keys().iter().any(|(k, _)| k == key) {
            self.known.push((key.to_string(), msg));
            Ok(())
        } else {
            Err(Fail {
                msg,
                key: Some(key.to_string()),
            })
        }
    }
}

static KNOWN: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
pub fn set_known(v: Vec<(String, String)>) {
    let _ = KNOWN.set(v);
}
fn known_keys() -> &'static [(String, String)] {
    KNOWN.get().map(|v| v.as_slice()).unwrap_or(&[])
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !QUIET.with(|q| *q.borrow()) {
            default(info);
        }
    }));
}

/// Runs a closure on the calling thread; a panic becomes Err((location, message)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default()
    })
}

pub enum Verdict {
    Ok,
    Fail(Fail),
    Harness(String),
}

fn run_case(f: &Family, i: u64, ex: &mut Exec) -> Verdict {
    match guarded(|| (f.run)(i, ex)) {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(e)) => Verdict::Fail(e),
        Err((loc, msg)) => {
            // Panics raised by the harness' own source files are harness errors, all others come from
            // the code under test (or a dependency it called).
            if loc.starts_with("src/") || loc.contains("/mc/src/") {
                Verdict::Harness(format!("harness panic at {loc}: {msg}"))
            } else {
                Verdict::Fail(format!("the code under test panicked at {loc}: {msg}").into())
            }
        }
    }
}

#[derive(Default)]
pub struct FamilyStats {
    pub name: String,
    pub rule: String,
    pub cases: u64,
    pub transitions: u64,
    pub traces: u64,
    pub undecided: u64,
    pub states: u64,
    pub outcomes: u64,
    pub wall_s: f64,
}

pub struct Report {
    pub families: Vec<FamilyStats>,
    pub states: u64,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub violation: Option<(String, u64, Fail, Vec<String>)>,
    pub harness_error: Option<String>,
}

const SHARDS: usize = 64;
struct ShardedSet(Vec<Mutex<HashSet<u64>>>);
impl ShardedSet {
    fn new() -> Self {
        ShardedSet((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn add(&self, v: &[u64]) {
        for &x in v {
            self.0[(x as usize) % SHARDS].lock().unwrap().insert(x);
        }
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

struct Slot {
    // 0 = idle, otherwise milliseconds since start + 1
    since: AtomicU64,
    case: AtomicU64,
}

pub fn explore(families: &[Family], on_hang: &(dyn Fn(&str, u64, u64) + Sync)) -> Report {
    let mut rep = Report {
        families: vec![],
        states: 0,
        outcomes: 0,
        samples: vec![],
        known: BTreeMap::new(),
        violation: None,
        harness_error: None,
    };
    let all_states = ShardedSet::new();
    let all_outcomes = ShardedSet::new();
    let t0 = Instant::now();
    let ncpu = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);

    for f in families {
        let nthreads = if f.serial { 1 } else { ncpu };
        let start = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let best: Mutex<Option<(u64, Verdict)>> = Mutex::new(None);
        let known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let (transitions, traces, undecided, cases) = (
            AtomicU64::new(0),
            AtomicU64::new(0),
            AtomicU64::new(0),
            AtomicU64::new(0),
        );
        let fstates = ShardedSet::new();
        let foutcomes = ShardedSet::new();
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot {
                since: AtomicU64::new(0),
                case: AtomicU64::new(0),
            })
            .collect();
        std::thread::scope(|s| {
            let workers: Vec<_> = (0..nthreads)
                .map(|w| {
                    let (next, stop, best, slots, known) = (&next, &stop, &best, &slots, &known);
                    let (transitions, traces, undecided, cases) =
                        (&transitions, &traces, &undecided, &cases);
                    let (fstates, foutcomes) = (&fstates, &foutcomes);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            // Cases are taken in small runs to keep the order close to the enumeration.
                            let batch = (f.n / (nthreads as u64 * 64)).clamp(1, 64);
                            'outer: loop {
                                let lo = next.fetch_add(batch, SeqCst);
                                if lo >= f.n {
                                    break;
                                }
                                for i in lo..(lo + batch).min(f.n) {
                                    if stop.load(SeqCst) {
                                        let b = best.lock().unwrap();
                                        if let Some((bi, _)) = &*b {
                                            if *bi <= i {
                                                break 'outer;
                                            }
                                        }
                                    }
                                    slots[w].case.store(i, SeqCst);
                                    slots[w]
                                        .since
                                        .store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                    let mut ex = Exec::new(false);
                                    let v = run_case(f, i, &mut ex);
                                    slots[w].since.store(0, SeqCst);
                                    cases.fetch_add(1, Relaxed);
                                    transitions.fetch_add(ex.transitions, Relaxed);
                                    traces.fetch_add(ex.traces, Relaxed);
                                    undecided.fetch_add(ex.undecided, Relaxed);
                                    fstates.add(&ex.states);
                                    foutcomes.add(&ex.outcomes);
                                    if !ex.known.is_empty() {
                                        let mut k = known.lock().unwrap();
                                        for (key, msg) in ex.known {
                                            k.entry(key).or_insert(msg);
                                        }
                                    }
                                    match v {
                                        Verdict::Ok => {}
                                        v => {
                                            let mut b = best.lock().unwrap();
                                            let better = match &*b {
                                                Some((bi, _)) => i < *bi,
                                                None => true,
                                            };
                                            if better {
                                                *b = Some((i, v));
                                            }
                                            stop.store(true, SeqCst);
                                        }
                                    }
                                }
                            }
                        })
                        .unwrap()
                })
                .collect();
            let (done_r, slots_r) = (&done, &slots);
            s.spawn(move || {
                while !done_r.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    for sl in slots_r {
                        let since = sl.since.load(SeqCst);
                        let case = sl.case.load(SeqCst);
                        if since != 0
                            && now > since + f.hang_s * 1000
                            && sl.since.load(SeqCst) == since
                        {
                            on_hang(&f.name, case, f.hang_s);
                        }
                    }
                    if rss_bytes() > 20 << 30 {
                        eprintln!("mc: memory cap reached");
                        std::process::exit(3);
                    }
                }
            });
            for w in workers {
                let _ = w.join();
            }
            done.store(true, SeqCst);
        });
        all_states.add(&fstates.0.iter().flat_map(|s| s.lock().unwrap().iter().copied().collect::<Vec<_>>()).collect::<Vec<_>>());
        all_outcomes.add(&foutcomes.0.iter().flat_map(|s| s.lock().unwrap().iter().copied().collect::<Vec<_>>()).collect::<Vec<_>>());
        rep.families.push(FamilyStats {
            name: f.name.clone(),
            rule: f.rule.clone(),
            cases: cases.load(SeqCst),
            transitions: transitions.load(SeqCst),
            traces: traces.load(SeqCst),
            undecided: undecided.load(SeqCst),
            states: fstates.len(),
            outcomes: foutcomes.len(),
            wall_s: start.elapsed().as_secs_f64(),
        });
        rep.known.append(&mut known.into_inner().unwrap());
        // One written-out case per family as sample.
        let pick = if f.n > 1 { f.n / 3 } else { 0 };
        let verdict = best.into_inner().unwrap();
        match verdict {
            None => {
                if f.n > 0 {
                    let mut ex = Exec::new(true);
                    let _ = run_case(f, pick, &mut ex);
                    let mut t = ex.notes.join("; ");
                    t.truncate(t.char_indices().nth(600).map(|x| x.0).unwrap_or(t.len()));
                    rep.samples.push(format!("{}#{}: {}", f.name, pick, t));
                }
            }
            Some((i, Verdict::Harness(e))) => {
                rep.harness_error = Some(format!("{}#{}: {}", f.name, i, e));
                break;
            }
            Some((i, Verdict::Fail(fail))) => {
                // Replay before trusting it.
                let mut ex = Exec::new(true);
                let again = run_case(f, i, &mut ex);
                let mut notes = ex.notes;
                match again {
                    Verdict::Fail(_) => {}
                    _ => notes.push("(an immediate re-execution did not fail: the code under test is not deterministic)".into()),
                }
                rep.violation = Some((f.name.clone(), i, fail, notes));
                break;
            }
            Some((_, Verdict::Ok)) => unreachable!(),
        }
    }
    rep.states = all_states.len();
    rep.outcomes = all_outcomes.len();
    rep
}

pub fn replay(f: &Family, i: u64) -> (Verdict, Vec<String>) {
    let mut ex = Exec::new(true);
    let v = run_case(f, i, &mut ex);
    (v, ex.notes)
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096)
        .unwrap_or(0)
}

/// Mixed-radix digits of `i`, least significant first.
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    radices
        .iter()
        .map(|&r| {
            let d = (i % r) as usize;
            i /= r;
            d
        })
        .collect()
}

pub fn product(radices: &[u64]) -> u64 {
    radices.iter().product()
}

/// Number of words over an alphabet of `k` letters with length 0..=depth, and the i-th of them
/// (shortest first, lexicographic).
pub fn words_upto(k: u64, depth: u32) -> u64 {
    (0..=depth).map(|d| k.pow(d)).sum()
}
pub fn word(mut i: u64, k: u64, depth: u32) -> Vec<usize> {
    for d in 0..=depth {
        let c = k.pow(d);
        if i < c {
            let mut w = digits(i, &vec![k; d as usize]);
            w.reverse();
            return w;
        }
        i -= c;
    }
    panic!("word index out of range");
}
