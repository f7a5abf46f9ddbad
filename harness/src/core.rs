//! Case generation, classification, shrinking and result files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a case did: labels for the distribution, and whether it was non-trivial by the rule.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    pub counts: BTreeMap<String, u64>,
}
impl Obs {
    pub fn label(&mut self, s: &str) {
        if !self.labels.contains(s) {
            self.labels.insert(s.to_string());
        }
    }
    pub fn count(&mut self, s: &str, n: u64) {
        *self.counts.entry(s.to_string()).or_insert(0) += n;
    }
}

pub type R = Result<(), String>;

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    /// cases over all shards
    const QUICK: u32;
    const THOROUGH: u32;
    /// CPU seconds of this thread after which a case is taken to go on for ever
    const CASE_CPU: u64 = 60;
    /// polls of library code that rest for a while (of which nothing but time can wake them) are failures
    const NO_REST: bool = false;
    fn strategy(thorough: bool) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, obs: &mut Obs) -> R;
}

#[derive(Serialize, Default)]
pub struct WorkerResult {
    pub property: String,
    pub rule: String,
    pub seed: u64,
    pub shard: u64,
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
    pub inconclusive: Option<String>,
    pub wall_s: f64,
}

#[derive(Serialize, Clone)]
pub struct Failure {
    pub message: String,
    pub case: serde_json::Value,
    pub first_message: String,
    pub shrink_steps: u64,
}

// ---- state shared with the watchdog -------------------------------------------------------------
pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
pub static SHRINKING: AtomicBool = AtomicBool::new(false);
/// threads that are inside a call into library code that may block or spin
pub static SPINNERS: Mutex<BTreeSet<u32>> = Mutex::new(BTreeSet::new());
pub static POLL_EPOCH: AtomicU64 = AtomicU64::new(0);

thread_local! { static MY_TID: u32 = gettid(); }

struct LibGuard(u32);
impl Drop for LibGuard {
    fn drop(&mut self) {
        SPINNERS.lock().unwrap().remove(&self.0);
        POLL_EPOCH.fetch_add(1, Ordering::SeqCst);
    }
}
/// Run library code that may block or spin on this thread, under the watchdog's eyes.
pub fn in_lib<T>(f: impl FnOnce() -> T) -> T {
    let tid = MY_TID.with(|t| *t);
    SPINNERS.lock().unwrap().insert(tid);
    POLL_EPOCH.fetch_add(1, Ordering::SeqCst);
    let _g = LibGuard(tid);
    f()
}
/// the thread that runs the cases, and their CASE_CPU
pub static RUNNER: AtomicU64 = AtomicU64::new(0);
pub static CASE_CPU: AtomicU64 = AtomicU64::new(60);
pub static NO_REST: AtomicBool = AtomicBool::new(false);
pub static CURRENT: Mutex<Option<serde_json::Value>> = Mutex::new(None);
pub static PARTIAL: Mutex<Option<(String, WorkerResult)>> = Mutex::new(None);
pub static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
pub static PANICS: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook(journal: Option<String>) {
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("panicked at {loc}: {msg}");
        PANICS.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut g) = LAST_PANIC.try_lock() {
            *g = Some(text.clone());
        }
        // a second panic while unwinding aborts the process: leave the case behind for the parent
        if let Some(j) = &journal {
            if let Ok(g) = CURRENT.try_lock() {
                if let Some(c) = &*g {
                    let _ = std::fs::write(
                        j,
                        serde_json::to_string(&serde_json::json!({"case": c, "message": text}))
                            .unwrap(),
                    );
                }
            }
        }
        if std::env::var_os("MCAP_SHOW_PANICS").is_some() {
            eprintln!("{text}");
        }
    }));
}

/// panics since the mark, for messages
pub fn panic_note(mark: u64) -> String {
    if PANICS.load(Ordering::SeqCst) > mark {
        if let Some(p) = LAST_PANIC.lock().unwrap().clone() {
            return format!(" [a thread or task {p}]");
        }
    }
    String::new()
}
pub fn panic_mark() -> u64 {
    PANICS.load(Ordering::SeqCst)
}

fn run_one<P: Prop>(case: &P::Case, obs: &mut Obs) -> R {
    RUNNER.store(gettid() as u64, Ordering::SeqCst);
    CASE_CPU.store(P::CASE_CPU, Ordering::SeqCst);
    NO_REST.store(P::NO_REST, Ordering::SeqCst);
    CASE_NO.fetch_add(1, Ordering::SeqCst);
    *CURRENT.lock().unwrap() = Some(serde_json::to_value(case).unwrap());
    let mark = panic_mark();
    let res = catch_unwind(AssertUnwindSafe(|| P::run(case, obs)));
    *CURRENT.lock().unwrap() = None;
    match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{e}{}", panic_note(mark))),
        Err(_) => Err(format!("crash{}", panic_note(mark))),
    }
}

fn hash_json(v: &serde_json::Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

pub fn rng_for(seed: u64, shard: u64, id: &str) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&shard.to_le_bytes());
    for (i, b) in id.bytes().enumerate().take(8) {
        bytes[16 + i] = b;
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn worker<P: Prop>(seed: u64, shard: u64, shards: u64, thorough: bool, scale: f64, out: &str) {
    let start = Instant::now();
    let total = if thorough { P::THOROUGH } else { P::QUICK } as f64 * scale;
    let n = ((total / shards as f64).ceil() as u64).max(1);
    let mut res = WorkerResult {
        property: P::ID.into(),
        rule: P::RULE.into(),
        seed,
        shard,
        ..Default::default()
    };
    let strat = P::strategy(thorough);
    let mut runner = TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        rng_for(seed, shard, P::ID),
    );
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    set_partial(out, &res);
    for i in 0..n {
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(e) => {
                res.inconclusive = Some(format!("generator: {e}"));
                break;
            }
        };
        let case = tree.current();
        let mut obs = Obs::default();
        let r = run_one::<P>(&case, &mut obs);
        res.evaluations += 1;
        for l in &obs.labels {
            *res.labels.entry(l.clone()).or_insert(0) += 1;
        }
        for (k, v) in &obs.counts {
            *res.counts.entry(k.clone()).or_insert(0) += v;
        }
        if obs.nontrivial {
            let v = serde_json::to_value(&case).unwrap();
            if seen.insert(hash_json(&v)) && (res.samples.len() < 2 || (i == n - 1)) {
                res.samples.push(v);
            }
        }
        if let Err(first) = &r {
            if first.starts_with("HARNESS") {
                res.inconclusive = Some(first.clone());
                break;
            }
        }
        if let Err(first) = r {
            // shrink
            SHRINKING.store(true, Ordering::SeqCst);
            let t0 = Instant::now();
            let (mut best, mut msg) = (case, first.clone());
            let mut steps = 0u64;
            let mut iters = 0u64;
            if tree.simplify() {
                loop {
                    iters += 1;
                    if iters > 4000 || t0.elapsed() > Duration::from_secs(60) {
                        break;
                    }
                    let c = tree.current();
                    let mut o = Obs::default();
                    match run_one::<P>(&c, &mut o) {
                        Err(m) if !m.starts_with("HARNESS") => {
                            best = c;
                            msg = m;
                            steps += 1;
                            if !tree.simplify() {
                                break;
                            }
                        }
                        _ => {
                            if !tree.complicate() {
                                break;
                            }
                        }
                    }
                }
            }
            res.failure = Some(Failure {
                message: msg,
                case: serde_json::to_value(&best).unwrap(),
                first_message: first,
                shrink_steps: steps,
            });
            break;
        }
        if i % 16 == 0 {
            set_partial(out, &res);
        }
    }
    res.nontrivial = seen.into_iter().collect();
    res.wall_s = start.elapsed().as_secs_f64();
    write_result(out, &res);
}

/// what the watchdog may need
fn set_partial(out: &str, res: &WorkerResult) {
    *PARTIAL.lock().unwrap() = Some((out.to_string(), WorkerResult {
        property: res.property.clone(),
        rule: res.rule.clone(),
        seed: res.seed,
        shard: res.shard,
        evaluations: res.evaluations,
        ..Default::default()
    }));
}

pub fn write_result(out: &str, res: &WorkerResult) {
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, serde_json::to_string(res).unwrap()).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

pub fn replay<P: Prop>(case: serde_json::Value) -> R {
    let case: P::Case = serde_json::from_value(case).map_err(|e| format!("bad replay file: {e}"))?;
    let mut obs = Obs::default();
    run_one::<P>(&case, &mut obs)
}

// ---- watchdog -----------------------------------------------------------------------------------

/// (state, voluntary + involuntary context switches) of a thread
pub fn thread_state(tid: u32) -> Option<(char, u64)> {
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    let mut state = '?';
    let mut sw = 0;
    for l in st.lines() {
        if let Some(v) = l.strip_prefix("State:") {
            state = v.trim().chars().next().unwrap_or('?');
        } else if let Some(v) = l.strip_prefix("voluntary_ctxt_switches:") {
            sw += v.trim().parse::<u64>().unwrap_or(0);
        } else if let Some(v) = l.strip_prefix("nonvoluntary_ctxt_switches:") {
            sw += v.trim().parse::<u64>().unwrap_or(0);
        }
    }
    Some((state, sw))
}
pub fn tids() -> BTreeSet<u32> {
    std::fs::read_dir("/proc/self/task")
        .map(|d| {
            d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok())
                .collect()
        })
        .unwrap_or_default()
}
/// CPU time of a thread, in 1/100 s
pub fn cpu_ticks(tid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| {
            let mut f = s.rsplit(')').next()?.split_whitespace().skip(11);
            Some(f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?)
        })
        .unwrap_or(0)
}
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
pub fn gettid() -> u32 {
    unsafe { syscall(186) as u32 }
}

/// One look at the given threads: Some(snapshot) when all of them sleep.
pub fn all_asleep(ts: &BTreeSet<u32>) -> Option<Vec<(u32, u64)>> {
    let mut v = Vec::new();
    for t in ts {
        match thread_state(*t) {
            None => {}
            Some(('S', n)) => v.push((*t, n)),
            Some(('Z', _)) | Some(('X', _)) => {}
            Some(_) => return None,
        }
    }
    Some(v)
}

/// Watches for a poll of library code that never returns while every other thread of the process
/// sleeps and does nothing: nothing can change any more, so the call will never return.
/// Likewise for everything sleeping for good outside such a poll, and for a thread that computes far longer
/// than a case can take (CPU time, so that a slow machine makes no difference).
/// A case that takes very long in any other way is inconclusive (exit 4).
pub fn start_watchdog(hang_is_failure: bool) {
    spawn_watchdog(hang_is_failure);
    while crate::p_queue::WATCHDOG.load(Ordering::SeqCst) == 0 {
        std::thread::yield_now();
    }
}
fn spawn_watchdog(hang_is_failure: bool) {
    std::thread::spawn(move || {
        let me = gettid();
        crate::p_queue::WATCHDOG.store(me, Ordering::SeqCst);
        let mut epoch = 0;
        let mut case = 0;
        let mut since = Instant::now();
        let mut case_since = Instant::now();
        let mut last: Option<Vec<(u32, u64)>> = None;
        let mut stable = 0;
        // CPU time of the threads when the case was first seen
        let mut cpu: BTreeMap<u32, u64> = BTreeMap::new();
        let mut rest: Option<Vec<(u32, u64)>> = None;
        let mut resting = 0;
        let mut n = 0u64;
        loop {
            if NO_REST.load(Ordering::SeqCst) {
                no_rest(me, hang_is_failure);
            } else {
                std::thread::sleep(Duration::from_millis(100));
            }
            n += 1;
            let c = CASE_NO.load(Ordering::SeqCst);
            if c != case {
                case = c;
                case_since = Instant::now();
                cpu.clear();
                resting = 0;
            } else if n % 10 == 0 && case_since.elapsed() > Duration::from_secs(2) && CURRENT.lock().unwrap().is_some() {
                let mut ts = tids();
                ts.remove(&me);
                let first = cpu.is_empty();
                let runner = RUNNER.load(Ordering::SeqCst) as u32;
                for t in &ts {
                    let now = cpu_ticks(*t);
                    // of threads born during the case all of it counts
                    let start = *cpu.entry(*t).or_insert(if first { now } else { 0 });
                    let limit = if *t == runner { CASE_CPU.load(Ordering::SeqCst) } else { 30 };
                    if now.saturating_sub(start) > 100 * limit && c == CASE_NO.load(Ordering::SeqCst) && hang_is_failure {
                        finish_hang(&format!("a thread has computed for {limit} s in one case and goes on"), false);
                    }
                }
                let now = all_asleep(&ts);
                resting = if now.is_some() && now == rest { resting + 1 } else { 0 };
                rest = now;
                if resting >= 60 && hang_is_failure {
                    finish_hang("every thread has slept for a minute in the middle of a case: they wait for each other", false);
                }
            }
            let e = POLL_EPOCH.load(Ordering::SeqCst);
            let spinners = SPINNERS.lock().unwrap().clone();
            if spinners.is_empty() || e != epoch {
                epoch = e;
                since = Instant::now();
                stable = 0;
                last = None;
            } else if since.elapsed() > Duration::from_secs(2) {
                let mut ts = tids();
                ts.remove(&me);
                ts.retain(|t| !spinners.contains(t));
                let now = all_asleep(&ts);
                if now.is_some() && now == last {
                    stable += 1;
                } else {
                    stable = 0;
                }
                last = now;
                if stable >= 30 && hang_is_failure {
                    finish_hang("a request was polled and never returns: it waits for a worker while every worker and the scheduler sleep", false);
                }
            }
            if case_since.elapsed() > Duration::from_secs(240) {
                finish_hang("a case did not finish in 240 s", true);
            }
        }
    });
}

/// Ten quick looks: a poll during which the whole process, the polling thread included, stays asleep waits
/// for time to pass; its thread is held up for nothing.
fn no_rest(me: u32, hang_is_failure: bool) {
    let mut last: Option<(u64, Vec<(u32, u64)>)> = None;
    for _ in 0..10 {
        std::thread::sleep(Duration::from_millis(10));
        let e = POLL_EPOCH.load(Ordering::SeqCst);
        if SPINNERS.lock().unwrap().is_empty() {
            last = None;
            continue;
        }
        let mut ts = tids();
        ts.remove(&me);
        let now = all_asleep(&ts).map(|v| (e, v));
        if now.is_some() && now == last && e == POLL_EPOCH.load(Ordering::SeqCst) && hang_is_failure {
            finish_hang("a request's poll rests, with its thread, while nothing else goes on", false);
        }
        last = now;
    }
}

fn finish_hang(msg: &str, inconclusive: bool) -> ! {
    let (out, mut res) = match PARTIAL.lock().unwrap().take() {
        Some(x) => x,
        None => {
            eprintln!("{msg}");
            std::process::exit(if inconclusive { 4 } else { 3 });
        }
    };
    let case = CURRENT.lock().unwrap().clone().unwrap_or(serde_json::Value::Null);
    if inconclusive {
        res.inconclusive = Some(msg.into());
    } else {
        res.failure = Some(Failure {
            message: msg.into(),
            first_message: msg.into(),
            case,
            shrink_steps: 0,
        });
    }
    write_result(&out, &res);
    std::process::exit(if inconclusive { 4 } else { 3 });
}
