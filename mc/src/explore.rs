//! A small stateless model checker.
//!
//! A *family* is a program written against `Ctx`: every nondeterministic decision (which line comes
//! next, which value a cell holds, where the file is cut, which operation is performed) is taken with
//! `choose(n)`.  The explorer runs the family once for every path of the resulting decision tree:
//! depth first, complete, in parallel (idle workers are given the untried siblings of the shallowest
//! open decision).  Calls into the code under test go through `call`, which counts a transition and
//! turns a panic into a value.  `state` records a digest of what was observed.
//!
//! Nothing is sampled: a run ends when every path was executed.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: Option<String>,
    pub msg: String,
}
pub type Verdict = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: None, msg: msg.into() })
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::explore::Fail { key: None, msg: format!($($a)*) }); } };
}

#[derive(Clone, Copy)]
struct Level {
    idx: usize,
    limit: usize,
    n: usize,
}

/// Deterministic 64-bit FNV-1a with a final mix; used for state digests only.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^ (h >> 33)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
#[derive(Default, Clone)]
pub struct BuildId;
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHash;
    fn build_hasher(&self) -> IdHash {
        IdHash(0)
    }
}
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

pub struct Ctx {
    path: Vec<Level>,
    pos: usize,
    pub thorough: bool,
    fam: u64,
    transitions: u64,
    states: HashSet<u64, BuildId>,
    samples: Vec<String>,
    want_sample: bool,
    comparisons: u64,
}

impl Ctx {
    /// Nondeterministic choice out of 0..n.  n = 0 is a harness error.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if self.pos == self.path.len() {
            self.path.push(Level { idx: 0, limit: n, n });
        }
        let l = &self.path[self.pos];
        assert_eq!(l.n, n, "harness is not deterministic");
        self.pos += 1;
        l.idx
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choose((hi - lo + 1) as usize) as i64
    }
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    /// A step of the code under test: counted; a panic comes back as Err(message).
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.transitions += 1;
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            format!("panicked: {m}")
        })
    }
    /// As `call`, for code that must not panic.
    pub fn run<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
        self.call(f).map_err(|e| Fail { key: None, msg: format!("{what} {e}") })
    }
    /// Steps of the code under test made without going through `call` (inside tight loops that the
    /// caller wraps in one `run`).
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn compared(&mut self, n: u64) {
        self.comparisons += n;
    }
    /// Record an observed state (inputs and outcome).
    pub fn state<H: Hash>(&mut self, h: H) {
        let mut f = Fnv::default();
        self.fam.hash(&mut f);
        h.hash(&mut f);
        let v = f.finish();
        if self.states.len() < 3_000_000 {
            self.states.insert(v);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.samples.push(f());
        }
    }
}

pub struct Family {
    pub name: &'static str,
    pub bound: String,
    pub f: Box<dyn Fn(&mut Ctx) -> Verdict + Sync + Send>,
}
pub fn family(name: &'static str, bound: impl Into<String>, f: impl Fn(&mut Ctx) -> Verdict + Sync + Send + 'static) -> Family {
    Family { name, bound: bound.into(), f: Box::new(f) }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

#[derive(Default)]
pub struct FamilyReport {
    pub executions: u64,
    pub decisions: u64,
    pub transitions: u64,
    pub comparisons: u64,
    pub states: u64,
    pub samples: Vec<String>,
    pub violations: Vec<(Vec<usize>, Fail)>,
    pub known: Vec<String>,
    pub complete: bool,
}

struct Shared {
    queue: Mutex<(Vec<Vec<Level>>, usize)>, // jobs, idle workers
    wake: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
}

/// One slot per worker for the watchdog: when the current execution began, and its choices so far.
pub struct Beat {
    started: AtomicU64,
    path: Mutex<Vec<usize>>,
}

const HANG_SECS: u64 = 60;
const RSS_LIMIT_KB: u64 = 20 * 1024 * 1024;
const MAX_VIOLATIONS: usize = 25;

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with("VmRSS")).and_then(|l| l.split_whitespace().nth(1)?.parse().ok()))
        .unwrap_or(0)
}

pub fn run_family(fam: &Family, index: u64, thorough: bool, known: &[String], on_hang: &(dyn Fn(Vec<usize>, String) + Sync)) -> FamilyReport {
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let shared = Shared { queue: Mutex::new((vec![vec![]], 0)), wake: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    let report = Mutex::new((FamilyReport::default(), HashSet::<u64, BuildId>::default()));
    let beats: Vec<Beat> = (0..workers).map(|_| Beat { started: AtomicU64::new(0), path: Mutex::new(vec![]) }).collect();
    let t0 = Instant::now();
    let done = AtomicUsize::new(0);

    std::thread::scope(|sc| {
        for w in 0..workers {
            let (shared, report, beats, done) = (&shared, &report, &beats, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut ctx = Ctx { path: vec![], pos: 0, thorough, fam: index, transitions: 0, states: Default::default(), samples: vec![], want_sample: false, comparisons: 0 };
                    let mut local = FamilyReport::default();
                    'jobs: loop {
                        let job = {
                            let mut q = shared.queue.lock().unwrap();
                            loop {
                                if shared.stop.load(Ordering::Relaxed) {
                                    break 'jobs;
                                }
                                if let Some(j) = q.0.pop() {
                                    break j;
                                }
                                q.1 += 1;
                                shared.idle.store(q.1, Ordering::Relaxed);
                                if q.1 == workers {
                                    shared.stop.store(true, Ordering::Relaxed);
                                    shared.wake.notify_all();
                                    break 'jobs;
                                }
                                q = shared.wake.wait(q).unwrap();
                                if shared.stop.load(Ordering::Relaxed) {
                                    break 'jobs;
                                }
                                q.1 -= 1;
                                shared.idle.store(q.1, Ordering::Relaxed);
                            }
                        };
                        ctx.path = job;
                        loop {
                            ctx.pos = 0;
                            ctx.want_sample = ctx.samples.len() < 2 && (local.executions == 0 || local.executions == 777);
                            *beats[w].path.lock().unwrap() = ctx.path.iter().map(|l| l.idx).collect();
                            beats[w].started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let r = catch_unwind(AssertUnwindSafe(|| (fam.f)(&mut ctx)));
                            beats[w].started.store(0, Ordering::Relaxed);
                            local.executions += 1;
                            local.decisions += ctx.pos as u64;
                            let r = match r {
                                Ok(v) => v,
                                Err(e) => {
                                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
                                    fail(format!("panicked outside a guarded call: {m}"))
                                }
                            };
                            let listed = r.as_ref().err().and_then(|f| f.key.clone()).filter(|k| known.contains(k));
                            if let Some(k) = listed {
                                // a finding on record: noted once, and the exploration goes on
                                if !local.known.contains(&k) {
                                    local.known.push(k);
                                }
                            } else if let Err(f) = r {
                                local.violations.push((ctx.path[..ctx.pos.min(ctx.path.len())].iter().map(|l| l.idx).collect(), f));
                                if local.violations.len() >= MAX_VIOLATIONS {
                                    shared.stop.store(true, Ordering::Relaxed);
                                    shared.wake.notify_all();
                                    break 'jobs;
                                }
                                // a panic in the body may have left decisions below pos untouched
                            }
                            ctx.path.truncate(ctx.pos);
                            // give idle workers the untried siblings of the shallowest open decision
                            if shared.idle.load(Ordering::Relaxed) > 0 {
                                if let Some(l) = ctx.path.iter().position(|l| l.idx + 1 < l.limit) {
                                    let mut job: Vec<Level> = ctx.path[..=l].to_vec();
                                    for lv in job[..l].iter_mut() {
                                        lv.limit = lv.idx + 1;
                                    }
                                    let (lo, hi) = (job[l].idx + 1, job[l].limit);
                                    let mid = if l + 1 == ctx.path.len() { lo + (hi - lo) / 2 } else { lo };
                                    if mid < hi {
                                        job[l].idx = mid;
                                        ctx.path[l].limit = mid;
                                        let mut q = shared.queue.lock().unwrap();
                                        q.0.push(job);
                                        drop(q);
                                        shared.wake.notify_one();
                                    }
                                }
                            }
                            // next path
                            while let Some(l) = ctx.path.last() {
                                if l.idx + 1 < l.limit {
                                    break;
                                }
                                ctx.path.pop();
                            }
                            match ctx.path.last_mut() {
                                Some(l) => l.idx += 1,
                                None => break,
                            }
                            if shared.stop.load(Ordering::Relaxed) {
                                break 'jobs;
                            }
                        }
                    }
                    let mut g = report.lock().unwrap();
                    g.0.executions += local.executions;
                    g.0.decisions += local.decisions;
                    g.0.transitions += ctx.transitions;
                    g.0.comparisons += ctx.comparisons;
                    g.0.violations.extend(local.violations);
                    g.0.known.extend(local.known);
                    if g.0.samples.len() < 3 {
                        g.0.samples.extend(ctx.samples.drain(..));
                    }
                    g.1.extend(ctx.states.iter());
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while done.load(Ordering::SeqCst) < workers {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            let mut worst = (0u64, 0usize);
            for (i, b) in beats.iter().enumerate() {
                let s = b.started.load(Ordering::Relaxed);
                if s > 0 && now.saturating_sub(s) > worst.0 {
                    worst = (now.saturating_sub(s), i);
                }
            }
            if worst.0 > HANG_SECS * 1000 {
                on_hang(beats[worst.1].path.lock().unwrap().clone(), format!("no result within {HANG_SECS} s for a single execution"));
            }
            if now % 1000 < 25 && worst.0 > 2000 && rss_kb() > RSS_LIMIT_KB {
                on_hang(beats[worst.1].path.lock().unwrap().clone(), "memory grew beyond 20 GB".into());
            }
        }
    });
    let (mut r, states) = report.into_inner().unwrap();
    r.states = states.len() as u64;
    r.complete = r.violations.len() < MAX_VIOLATIONS;
    r.samples.truncate(3);
    r
}

/// Re-execute one path (for replay files).
pub fn replay(fam: &Family, index: u64, thorough: bool, path: &[usize]) -> Verdict {
    // The recorded indices are replayed positionally; the arity of each decision is learned on the way.
    struct Replay;
    let _ = Replay;
    let mut ctx = Ctx { path: vec![], pos: 0, thorough, fam: index, transitions: 0, states: Default::default(), samples: vec![], want_sample: false, comparisons: 0 };
    // first run with arity unknown: use usize::MAX marker levels resolved lazily
    let mut known: Vec<Level> = vec![];
    loop {
        ctx.path = known.clone();
        ctx.pos = 0;
        let r = catch_unwind(AssertUnwindSafe(|| (fam.f)(&mut ctx)));
        if known.len() < path.len() && ctx.path.len() > known.len() {
            let n = ctx.path[known.len()].n;
            known.push(Level { idx: path[known.len()].min(n - 1), limit: n, n });
            continue;
        }
        return match r {
            Ok(v) => v,
            Err(_) => fail("panicked outside a guarded call"),
        };
    }
}

pub fn json_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
