//! P13-P16: the verification scheduler with its real threads, fed jobs the harness starts and ends.
use crate::gen::addresses;
use crate::core::{all_asleep, gettid, in_lib, tids, Obs, Prop, R};
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::verif_hooks::{Manager, Runnable};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

/// tid of the watchdog and other harness threads
pub static HARNESS_TIDS: Mutex<BTreeSet<u32>> = Mutex::new(BTreeSet::new());
pub static WATCHDOG: AtomicU32 = AtomicU32::new(0);

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w: Waker = Arc::new(Unpark(std::thread::current())).into();
    let mut cx = Context::from_waker(&w);
    in_lib(|| loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    })
}
fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    let w: Waker = Arc::new(Unpark(std::thread::current())).into();
    let mut cx = Context::from_waker(&w);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

#[derive(Default)]
struct State {
    started: Vec<(usize, u32)>,
    released: BTreeSet<usize>,
    finished: BTreeSet<usize>,
    dropped: BTreeSet<usize>,
}
#[derive(Default)]
struct Shared(Mutex<State>, Condvar);

struct Job {
    id: usize,
    sh: Arc<Shared>,
}
impl Runnable for Job {
    fn run(&self) {
        let mut g = self.sh.0.lock().unwrap();
        g.started.push((self.id, gettid()));
        while !g.released.contains(&self.id) {
            g = self.sh.1.wait(g).unwrap();
        }
        g.finished.insert(self.id);
    }
}
impl Drop for Job {
    fn drop(&mut self) {
        self.sh.0.lock().unwrap().dropped.insert(self.id);
    }
}
impl Shared {
    fn release(&self, ids: &[usize]) {
        let mut g = self.0.lock().unwrap();
        g.released.extend(ids.iter().copied());
        self.1.notify_all();
    }
}

/// Wait until every thread but the harness's own sleeps and nothing is under way.
/// A thread found asleep twice without having been switched in between slept throughout, so all of
/// them slept at the moment between the two looks; only the harness could wake them.
pub fn quiesce(except: &BTreeSet<u32>) -> R {
    let t0 = Instant::now();
    let mut last: Option<Vec<(u32, u64)>> = None;
    let mut n = 0u32;
    loop {
        let ts: BTreeSet<u32> = tids().into_iter().filter(|t| !except.contains(t)).collect();
        let now = all_asleep(&ts);
        if now.is_some() && now == last {
            return Ok(());
        }
        let asleep = now.is_some();
        last = now;
        n += 1;
        if !asleep {
            if n < 200 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        if t0.elapsed() > Duration::from_secs(120) {
            return Err("HARNESS: the scheduler's threads did not come to rest in 120 s".into());
        }
    }
}
fn own() -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    s.insert(gettid());
    s.insert(WATCHDOG.load(Ordering::SeqCst));
    s
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Q {
    Submit(u8),
    /// several submissions at once; made only while every worker is busy
    Burst(Vec<u8>),
    /// let one of the running jobs end
    Finish(u8),
    /// let this many running jobs end at once
    FinishMany(u8),
    /// nothing happens for so long (ms)
    Rest(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CQ {
    workers: u8,
    limit: u16,
    /// the addresses submissions come from
    addresses: Vec<String>,
    ops: Vec<Q>,
    /// let this many more running jobs end, one by one, at the end of the history
    drain: bool,
    /// instead of all that: a crowd
    #[serde(default)]
    crowd: Option<Crowd>,
}
/// Very many addresses at once: they submit while every worker is busy, then everything runs.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    addresses: u32,
    /// jobs per address
    each: u8,
    limit: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Check {
    Stranding,
    Fairness,
    Limit,
}

struct Sim {
    m: Manager,
    sh: Arc<Shared>,
    own: BTreeSet<u32>,
    workers: usize,
    limit: usize,
    check: Check,
    names: Vec<String>,
    /// address of each submitted job
    addr: Vec<u8>,
    accepted: BTreeSet<usize>,
    refused: BTreeSet<usize>,
    /// accepted and not started, per address, oldest first
    waiting: BTreeMap<u8, VecDeque<usize>>,
    running: Vec<usize>,
    seen: usize,
    /// per address: starts of the others since its oldest waiting job became the oldest
    since: BTreeMap<u8, BTreeMap<u8, u32>>,
    threads: BTreeSet<u32>,
}
impl Sim {
    fn new(workers: usize, limit: usize, check: Check, names: &[String]) -> Result<Sim, String> {
        let own = own();
        let s = Sim {
            m: Manager::new(workers, limit),
            sh: Arc::default(),
            own,
            workers,
            limit,
            check,
            names: names.to_vec(),
            addr: vec![],
            accepted: BTreeSet::new(),
            refused: BTreeSet::new(),
            waiting: BTreeMap::new(),
            running: vec![],
            seen: 0,
            since: BTreeMap::new(),
            threads: BTreeSet::new(),
        };
        quiesce(&s.own)?;
        Ok(s)
    }
    fn waiting_addresses(&self) -> usize {
        self.waiting.values().filter(|q| !q.is_empty()).count()
    }
    fn waiting_jobs(&self) -> usize {
        self.waiting.values().map(|q| q.len()).sum()
    }
    /// Submit; the replies are taken in order, the state is looked at afterwards.
    fn submit(&mut self, addrs: &[u8], what: &str, obs: &mut Obs) -> R {
        let mut futs: Vec<(usize, u8, Pin<Box<dyn Future<Output = Result<(), CaptchaError>> + '_>>)> = vec![];
        let base = self.addr.len();
        for (i, a) in addrs.iter().enumerate() {
            let id = base + i;
            let job = Box::new(Job { id, sh: self.sh.clone() });
            let mut f: Pin<Box<dyn Future<Output = _> + '_>> = Box::pin(self.m.add(self.names.get(*a as usize).cloned().unwrap_or_else(|| format!("192.168.0.{a}")), job));
            // the first poll hands the submission over
            match poll_once(&mut f) {
                None => futs.push((id, *a, f)),
                Some(r) => futs.push((id, *a, Box::pin(std::future::ready(r)))),
            }
        }
        let mut replies = vec![];
        for (id, a, f) in futs {
            replies.push((id, a, block_on(f)));
        }
        for (id, a, r) in replies {
            self.addr.push(a);
            let full = self.waiting_addresses() == self.limit;
            match r {
                Ok(()) => {
                    if self.check == Check::Limit && full {
                        return Err(format!(
                            "{what}: accepted although {} addresses have waiting jobs, which is the limit",
                            self.limit
                        ));
                    }
                    self.accepted.insert(id);
                    let q = self.waiting.entry(a).or_default();
                    q.push_back(id);
                    if q.len() == 1 {
                        self.since.insert(a, BTreeMap::new());
                    }
                }
                Err(CaptchaError::QueueFull) => {
                    if self.check == Check::Limit && !full {
                        return Err(format!(
                            "{what}: refused although only {} of {} addresses have waiting jobs",
                            self.waiting_addresses(),
                            self.limit
                        ));
                    }
                    obs.label("refused");
                    self.refused.insert(id);
                }
                Err(e) => return Err(format!("{what}: answered {e:?}")),
            }
        }
        self.look(what, obs)
    }
    fn finish(&mut self, ids: &[usize], what: &str, obs: &mut Obs) -> R {
        self.running.retain(|r| !ids.contains(r));
        self.sh.release(ids);
        self.look(what, obs)
    }
    fn look(&mut self, what: &str, obs: &mut Obs) -> R {
        // a scheduler that looks for work now and then is given time to do so
        for _ in 0..8 {
            self.take(what, obs)?;
            if self.check != Check::Stranding || self.waiting_jobs() == 0 || self.running.len() >= self.workers {
                return Ok(());
            }
            std::thread::sleep(Duration::from_millis(40));
        }
        Err(format!(
            "{what}: {} accepted jobs wait while {} of {} workers are idle and everything is at rest; waiting per address: {:?}",
            self.waiting_jobs(),
            self.workers - self.running.len(),
            self.workers,
            self.waiting
        ))
    }
    fn take(&mut self, what: &str, obs: &mut Obs) -> R {
        quiesce(&self.own)?;
        let (starts, finished): (Vec<(usize, u32)>, BTreeSet<usize>) = {
            let g = self.sh.0.lock().unwrap();
            (g.started[self.seen..].to_vec(), g.finished.clone())
        };
        self.seen += starts.len();
        for (id, tid) in starts {
            self.threads.insert(tid);
            let a = self.addr[id];
            if self.refused.contains(&id) {
                return Err(format!("{what}: job {id} was refused but started"));
            }
            let q = self.waiting.entry(a).or_default();
            match q.iter().position(|x| *x == id) {
                None => return Err(format!("{what}: job {id} started twice")),
                Some(0) => {
                    q.pop_front();
                }
                Some(p) => {
                    if self.check == Check::Fairness {
                        return Err(format!("{what}: job {id} of address {a} started before {p} jobs of it accepted earlier"));
                    }
                    q.remove(p);
                }
            }
            self.running.push(id);
            // fairness
            if q.is_empty() {
                self.since.remove(&a);
            } else {
                self.since.insert(a, BTreeMap::new());
            }
            for (x, per) in self.since.iter_mut() {
                if *x != a {
                    let n = per.entry(a).or_insert(0);
                    *n += 1;
                    if *n >= 2 && self.check == Check::Fairness {
                        return Err(format!(
                            "{what}: address {a} had {n} jobs started while the oldest job of address {x} was waiting"
                        ));
                    }
                }
            }
            obs.count("jobs started", 1);
        }
        if self.running.len() > self.workers && self.check == Check::Stranding {
            return Err(format!("{what}: {} jobs run on {} workers", self.running.len(), self.workers));
        }
        let waiting = self.waiting_jobs();
        for r in self.running.iter() {
            if finished.contains(r) {
                return Err(format!("HARNESS: job {r} ended unasked"));
            }
        }
        if waiting > 0 && self.running.len() == self.workers && self.waiting_addresses() > 1 {
            obs.label("contended");
            obs.nontrivial |= self.check != Check::Limit;
        }
        Ok(())
    }
}

/// end everything so that dropping the manager cannot block on a gated job
struct Gate(Arc<Shared>);
impl Drop for Gate {
    fn drop(&mut self) {
        let mut g = self.0 .0.lock().unwrap_or_else(|e| e.into_inner());
        g.released.extend(0..100_000);
        self.0 .1.notify_all();
    }
}

/// A job of a crowd: it only notes that it ran
struct Light(u32, Arc<Mutex<Vec<u32>>>);
impl Runnable for Light {
    fn run(&self) {
        self.1.lock().unwrap().push(self.0)
    }
}

fn run_crowd(w: usize, c: &Crowd, check: Check, obs: &mut Obs) -> R {
    let own = own();
    // the order of the starts can be seen with one worker only
    let w = if check == Check::Fairness { 1 } else { w.max(1) };
    let limit = c.limit as usize;
    let m = Manager::new(w, limit.max(1));
    let sh: Arc<Shared> = Arc::default();
    let gate = Gate(sh.clone());
    let log: Arc<Mutex<Vec<u32>>> = Arc::default();
    let r = (|| {
        for id in 0..w {
            if let Err(e) = block_on(m.add(format!("worker {id}"), Box::new(Job { id, sh: sh.clone() }))) {
                return Err(format!("the first job number {id} is answered {e:?}"));
            }
        }
        quiesce(&own)?;
        if sh.0.lock().unwrap().started.len() != w {
            return Err(format!("{} of {w} workers have a job, {w} jobs were accepted", sh.0.lock().unwrap().started.len()));
        }
        // a thousand at a time ask before any of them looks at its answer
        let mut n = c.addresses;
        let each = c.each.max(1) as u32;
        let mut accepted: Vec<u32> = vec![];
        let (t0, mut done) = (Instant::now(), 0u32);
        while done < n * each {
            if t0.elapsed() > Duration::from_secs(5) && done >= 1000 {
                // slow is not wrong: the crowd is what there is by now
                obs.label("crowd-cut-short");
                break;
            }
            let mut futs = Vec::with_capacity(1000);
            for id in done..(done + 1000).min(n * each) {
                let mut f: Pin<Box<dyn Future<Output = _> + '_>> = Box::pin(m.add(format!("a{}", id % n), Box::new(Light(id, log.clone()))));
                let early = poll_once(&mut f);
                futs.push((id, f, early));
            }
            done += futs.len() as u32;
            for (id, f, early) in futs {
                let r = match early {
                    Some(r) => r,
                    None => block_on(f),
                };
                // in the first round one address after the other starts to wait, then nothing changes
                let waiting = (id.min(n) as usize).min(limit);
                match r {
                    Ok(()) if check == Check::Limit && waiting >= limit => {
                        return Err(format!("submission {id} accepted although {waiting} addresses have waiting jobs, the limit is {limit}"))
                    }
                    Ok(()) => accepted.push(id),
                    Err(CaptchaError::QueueFull) if check == Check::Limit && waiting < limit => {
                        return Err(format!("submission {id} refused although only {waiting} of {limit} addresses have waiting jobs"))
                    }
                    Err(CaptchaError::QueueFull) => obs.label("refused"),
                    Err(e) => return Err(format!("submission {id} is answered {e:?}")),
                }
            }
        }
        n = n.min(done);
        if !log.lock().unwrap().is_empty() {
            return Err(format!("a job ran while every worker was busy with another, {} of them", log.lock().unwrap().len()));
        }
        sh.release(&(0..w).collect::<Vec<_>>());
        quiesce(&own)?;
        let ran = log.lock().unwrap().clone();
        obs.count("jobs started", ran.len() as u64);
        if check != Check::Fairness {
            let mut sorted = ran.clone();
            sorted.sort_unstable();
            if sorted != accepted {
                let missing = accepted.iter().find(|a| sorted.binary_search(a).is_err());
                let extra = sorted.windows(2).find(|p| p[0] == p[1]).map(|p| p[0]).or_else(|| sorted.iter().find(|a| accepted.binary_search(a).is_err()).copied());
                return Err(format!("{} jobs were accepted and {} run; not run: {missing:?}, twice or unasked: {extra:?}", accepted.len(), ran.len()));
            }
        } else {
            let mut last: Vec<Option<usize>> = vec![None; n as usize];
            let mut before: Vec<Option<u32>> = vec![None; n as usize];
            // the latest position at or before this one whose address came again since
            let mut again: Option<usize> = None;
            for (i, id) in ran.iter().enumerate() {
                let a = (id % n) as usize;
                if before[a].is_some_and(|b| b >= *id) {
                    return Err(format!("address {a}: job {id} started after {:?}", before[a]));
                }
                // it waited since its previous start, or from the beginning
                if let Some(g) = again {
                    if last[a].map_or(true, |l| g > l) {
                        return Err(format!(
                            "address {} had two jobs started while the oldest job {id} of address {a} was waiting",
                            ran[g] % n
                        ));
                    }
                }
                again = again.max(last[a]);
                last[a] = Some(i);
                before[a] = Some(*id);
            }
        }
        obs.label("crowd");
        if n > 65_536 {
            obs.label("crowd-of-more-than-65536");
        }
        obs.nontrivial = true;
        Ok(())
    })();
    drop(gate);
    in_lib(move || drop(m));
    r
}

fn run_queue(c: &CQ, check: Check, obs: &mut Obs) -> R {
    if let Some(crowd) = &c.crowd {
        return run_crowd(c.workers as usize, crowd, check, obs);
    }
    let mut s = Sim::new(c.workers as usize, c.limit as usize, check, &c.addresses)?;
    let gate = Gate(s.sh.clone());
    let r = (|| {
        for (i, op) in c.ops.iter().enumerate() {
            let what = format!("op {i} {op:?}");
            match op {
                Q::Submit(a) => s.submit(&[*a], &what, obs)?,
                Q::Burst(v) => {
                    if s.running.len() == s.workers {
                        obs.label("burst");
                        s.submit(v, &what, obs)?
                    } else {
                        for a in v {
                            s.submit(&[*a], &what, obs)?
                        }
                    }
                }
                Q::Finish(k) => {
                    if !s.running.is_empty() {
                        let id = s.running[*k as usize % s.running.len()];
                        s.finish(&[id], &what, obs)?
                    }
                }
                Q::Rest(ms) => {
                    std::thread::sleep(Duration::from_millis(*ms as u64));
                    s.look(&what, obs)?;
                    obs.label("rested");
                }
                Q::FinishMany(k) => {
                    let n = (*k as usize).min(s.running.len());
                    // with several starts at once their order is not observable
                    if check != Check::Fairness {
                        let ids: Vec<_> = s.running[..n].to_vec();
                        s.finish(&ids, &what, obs)?
                    } else {
                        for _ in 0..n {
                            if let Some(id) = s.running.first().copied() {
                                s.finish(&[id], &what, obs)?
                            }
                        }
                    }
                }
            }
            if check == Check::Limit && s.waiting_addresses() == s.limit {
                obs.label("at-limit");
                obs.nontrivial = true;
            }
        }
        if c.drain {
            let mut n = 0;
            while let Some(id) = s.running.first().copied() {
                s.finish(&[id], "draining", obs)?;
                n += 1;
                if n > 10_000 {
                    return Err("HARNESS: drain".into());
                }
            }
            if check == Check::Stranding {
                let g = s.sh.0.lock().unwrap();
                for id in &s.accepted {
                    if !g.finished.contains(id) {
                        return Err(format!("accepted job {id} was never run"));
                    }
                }
                drop(g);
                if s.accepted.len() >= 2 {
                    obs.label("drained");
                }
            }
            if check == Check::Limit && s.limit > 0 && s.limit <= 100 {
                // capacity is back: as many new addresses as the limit allows are accepted
                let busy = s.workers;
                for i in 0..(busy + s.limit) {
                    s.submit(&[200u8.wrapping_add(i as u8)], "after draining", obs)?;
                }
                if s.waiting_addresses() != s.limit {
                    return Err(format!("after draining only {} addresses could queue, the limit is {}", s.waiting_addresses(), s.limit));
                }
                s.submit(&[199], "after refilling", obs)?;
                obs.label("refilled");
            }
        }
        Ok(())
    })();
    drop(gate);
    let Sim { m, .. } = s;
    in_lib(move || drop(m));
    r
}

fn ops(addrs: u8, len: usize) -> BoxedStrategy<Vec<Q>> {
    let op = prop_oneof![
        6 => (0..addrs).prop_map(Q::Submit),
        2 => Just(Q::Submit(0)),
        2 => proptest::collection::vec(0..addrs, 2..7).prop_map(Q::Burst),
        1 => (2..6usize).prop_map(|n| Q::Burst(vec![0; n])),
        6 => any::<u8>().prop_map(Q::Finish),
        1 => (2..5u8).prop_map(Q::FinishMany),
    ];
    // a stretch of load, a stretch of draining, again
    let load = proptest::collection::vec((0..addrs).prop_map(Q::Submit), 0..8);
    let drain = proptest::collection::vec(any::<u8>().prop_map(Q::Finish), 0..10);
    prop_oneof![
        2 => proptest::collection::vec(op.clone(), 1..len),
        1 => (load.clone(), drain.clone(), load, drain, proptest::collection::vec(op, 0..len / 2))
            .prop_map(|(a, b, c, d, e)| a.into_iter().chain(b).chain(c).chain(d).chain(e).collect()),
    ]
    .boxed()
}

macro_rules! qprop {
    ($name:ident, $id:expr, $check:expr, $limit:expr, $rule:expr, $quick:expr, $thorough:expr) => {
        pub struct $name;
        impl Prop for $name {
            type Case = CQ;
            const ID: &'static str = $id;
            const RULE: &'static str = $rule;
            const QUICK: u32 = $quick;
            const THOROUGH: u32 = $thorough;
            fn strategy(t: bool) -> BoxedStrategy<CQ> {
                let len = if t { 60 } else { 34 };
                let drain = || prop_oneof![4 => Just(true), 1 => Just(false)];
                let usual = (1..5u8, $limit, addresses(8), prop_oneof![ops(3, len), ops(8, len)], drain())
                    .prop_map(|(workers, limit, addresses, ops, drain)| CQ { workers, limit, addresses, ops, drain, crowd: None });
                // many workers, many addresses
                let large = (4..20u8, prop_oneof![Just(1000u16), 8..50u16], addresses(60), ops(60, 3 * len), drain())
                    .prop_map(|(workers, limit, addresses, ops, drain)| CQ { workers, limit, addresses, ops, drain, crowd: None });
                // load for more workers or from more addresses than usual
                let huge = (prop_oneof![1..5u8, 20..90u8], prop_oneof![Just(1000u16), 60..255u16], addresses(250), 20..250u8, ops(250, len), drain())
                    .prop_map(|(workers, limit, addresses, load, after, drain)| {
                        let mut ops: Vec<Q> = (0..load).map(Q::Submit).collect();
                        ops.extend(after);
                        CQ { workers, limit, addresses, ops, drain, crowd: None }
                    });
                // one address floods
                let flood = (1..4u8, $limit, addresses(8), ops(4, 12), 60..300usize, ops(8, len), drain()).prop_map(
                    |(workers, limit, addresses, before, n, after, drain)| {
                        let mut ops = before;
                        ops.push(Q::Burst(vec![0; n]));
                        ops.extend(after);
                        CQ { workers, limit, addresses, ops, drain, crowd: None }
                    },
                );
                // a long rest at the start or on the way
                let rest = (1..5u8, $limit, addresses(8), ops(8, 12), 1200..3500u16, ops(8, 12), any::<bool>()).prop_map(
                    |(workers, limit, addresses, before, ms, after, fresh)| {
                        let mut ops = if fresh { vec![] } else { before };
                        ops.push(Q::Rest(ms));
                        ops.extend(after);
                        CQ { workers, limit, addresses, ops, drain: true, crowd: None }
                    },
                );
                let size = (8..if t { 21u32 } else { 19 }).prop_flat_map(|k| (1u32 << k)..(2u32 << k));
                let crowd = (1..5u8, size, 1..4u8, prop_oneof![2 => Just(3u8), 1 => 0..3u8], any::<u32>()).prop_map(
                    |(workers, n, each, kind, x)| {
                        let each = if n > 300_000 { 1 } else { each };
                        let limit = match kind {
                            0 => 1 + x % n,
                            1 => n,
                            2 => n.saturating_sub(x % 3).max(1),
                            _ => n + 1 + x % 1000,
                        };
                        CQ { workers, limit: 0, addresses: vec![], ops: vec![], drain: true, crowd: Some(Crowd { addresses: n, each, limit }) }
                    },
                );
                // far longer than a case takes, so only a few of them
                let rests = if $check == Check::Stranding { 24 } else { 3 };
                prop_oneof![24000 => usual, 800 => large, 150 => huge, 400 => flood, 2 * rests => rest, 100 => crowd].boxed()
            }
            fn run(c: &CQ, obs: &mut Obs) -> R {
                run_queue(c, $check, obs)
            }
        }
    };
}
qprop!(P13, "P13", Check::Stranding, prop_oneof![Just(1000u16), 1..9u16], "jobs of at least two addresses wait while every worker is busy", 4000, 150_000);
qprop!(P14, "P14", Check::Fairness, prop_oneof![4 => Just(1000u16), 1 => 2..9u16], "jobs of at least two addresses wait while every worker is busy", 4000, 150_000);
qprop!(P15, "P15", Check::Limit, prop_oneof![8 => 1..6u16, 1 => Just(0u16), 1 => 6..12u16], "the number of waiting addresses reaches the limit", 4000, 150_000);

// ---- P16 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16 {
    workers: u8,
    addresses: Vec<String>,
    ops: Vec<Q>,
    /// how many running jobs end before / while / after the shutdown is asked for
    before: u8,
    racing: u8,
    order: u8,
}
pub struct P16;

/// CPU time of a thread in clock ticks
fn cpu_ticks(tid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| {
            let s = s.rsplit_once(')')?.1.to_string();
            let f: Vec<&str> = s.split_whitespace().collect();
            Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
        })
        .unwrap_or(0)
}

impl Prop for P16 {
    type Case = C16;
    const ID: &'static str = "P16";
    const RULE: &'static str = "the scheduler is dropped while jobs wait and jobs run";
    const QUICK: u32 = 3_500;
    const THOROUGH: u32 = 120_000;
    fn strategy(t: bool) -> BoxedStrategy<C16> {
        (
            prop_oneof![20 => 1..5u8, 1 => 5..20u8],
            addresses(8),
            prop_oneof![ops(3, if t { 40 } else { 20 }), ops(8, 20)],
            0..3u8,
            prop_oneof![2 => Just(0u8), 1 => 0..5u8],
            any::<u8>(),
        )
            .prop_map(|(workers, addresses, ops, before, racing, order)| C16 { workers, addresses, ops, before, racing, order })
            .boxed()
    }
    fn run(c: &C16, obs: &mut Obs) -> R {
        // threads that were there before
        let base = tids();
        let mut s = Sim::new(c.workers as usize, 1000, Check::Stranding, &c.addresses)?;
        s.check = Check::Limit; // only bookkeeping here
        s.limit = usize::MAX;
        let sh = s.sh.clone();
        let gate = Gate(sh.clone());
        let mut o2 = Obs::default();
        for (i, op) in c.ops.iter().enumerate() {
            let what = format!("op {i} {op:?}");
            match op {
                Q::Submit(a) => s.submit(&[*a], &what, &mut o2)?,
                Q::Burst(v) => {
                    for a in v {
                        s.submit(&[*a], &what, &mut o2)?
                    }
                }
                Q::Finish(k) => {
                    if !s.running.is_empty() {
                        let id = s.running[*k as usize % s.running.len()];
                        s.finish(&[id], &what, &mut o2)?
                    }
                }
                Q::Rest(ms) => {
                    std::thread::sleep(Duration::from_millis(*ms as u64));
                    s.look(&what, obs)?;
                    obs.label("rested");
                }
                Q::FinishMany(k) => {
                    let n = (*k as usize).min(s.running.len());
                    let ids: Vec<_> = s.running[..n].to_vec();
                    s.finish(&ids, &what, &mut o2)?
                }
            }
        }
        for _ in 0..c.before {
            if let Some(id) = s.running.first().copied() {
                s.finish(&[id], "before shutdown", &mut o2)?;
            }
        }
        let waiting: BTreeSet<usize> = s.waiting.values().flatten().copied().collect();
        let mut running: Vec<usize> = s.running.clone();
        let accepted = s.accepted.clone();
        let seen = s.seen;
        let mut own = s.own.clone();
        obs.nontrivial = !waiting.is_empty() && !running.is_empty();
        obs.label(match (waiting.is_empty(), running.is_empty()) {
            (true, true) => "idle",
            (true, false) => "only-running",
            (false, false) => "running-and-waiting",
            (false, true) => "only-waiting",
        });
        let Sim { m, .. } = s;
        let returned = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (r2, dtid) = (returned.clone(), Arc::new(AtomicU32::new(0)));
        let d2 = dtid.clone();
        let racing = (c.racing as usize).min(running.len());
        let race_ids: Vec<usize> = running.drain(..racing).collect();
        let go = Arc::new(std::sync::Barrier::new(2));
        let g2 = go.clone();
        let h = std::thread::spawn(move || {
            d2.store(gettid(), Ordering::SeqCst);
            g2.wait();
            drop(m);
            r2.store(true, Ordering::SeqCst);
        });
        go.wait();
        if racing > 0 {
            sh.release(&race_ids);
            obs.label("racing");
        }
        // whatever is running is let go one by one; nothing new may start (unless ends raced with the shutdown)
        own.insert(dtid.load(Ordering::SeqCst));
        let dropper = dtid.load(Ordering::SeqCst);
        let rest = |own: &BTreeSet<u32>| -> R {
            let mut o = own.clone();
            o.remove(&dropper);
            quiesce(&o)
        };
        rest(&own)?;
        if racing > 0 {
            // jobs that started because an end was handled before the shutdown
            let g = sh.0.lock().unwrap();
            for (id, _) in &g.started[seen..] {
                running.push(*id);
            }
            if g.started.len() - seen > racing {
                return Err(format!("{racing} jobs ended around the shutdown, but {} were started", g.started.len() - seen));
            }
        }
        let after = sh.0.lock().unwrap().started.len();
        while !running.is_empty() {
            rest(&own)?;
            if returned.load(Ordering::SeqCst) {
                return Err(format!("the shutdown returned while {} jobs are running", running.len()));
            }
            let id = running.remove(c.order as usize % running.len());
            sh.release(&[id]);
            rest(&own)?;
            let g = sh.0.lock().unwrap();
            if g.started.len() > after {
                return Err(format!("job {} was started after the shutdown", g.started[after].0));
            }
        }
        // now it must end: give up only when everything sleeps or a thread burns CPU for nothing
        let t0 = Instant::now();
        let mut ticks0: Option<BTreeMap<u32, u64>> = None;
        loop {
            let left: BTreeSet<u32> = tids().difference(&base).copied().collect();
            let done = returned.load(Ordering::SeqCst);
            if done && left.iter().all(|t| *t == dropper) {
                break;
            }
            if t0.elapsed() > Duration::from_millis(300) {
                let others: BTreeSet<u32> = left.clone();
                let a = all_asleep(&others);
                std::thread::sleep(Duration::from_millis(20));
                let b = all_asleep(&tids().difference(&base).copied().collect());
                if let (Some(a), Some(b)) = (a, b) {
                    if a == b && !b.is_empty() {
                        let fin = returned.load(Ordering::SeqCst);
                        // leak everything: the threads cannot be ended
                        std::mem::forget(h);
                        return Err(format!(
                            "no job is running any more, but {}: {} threads sleep forever",
                            if fin { "threads of the scheduler remain" } else { "the shutdown does not return" },
                            b.len()
                        ));
                    }
                }
                let t: BTreeMap<u32, u64> = left.iter().map(|t| (*t, cpu_ticks(*t))).collect();
                match &ticks0 {
                    None => ticks0 = Some(t),
                    Some(t0) => {
                        if let Some((tid, n)) = t.iter().map(|(k, v)| (*k, v.saturating_sub(*t0.get(k).unwrap_or(v)))).find(|x| x.1 > 300) {
                            std::mem::forget(h);
                            return Err(format!("thread {tid} of the scheduler burnt {n} ticks of CPU after the shutdown instead of ending"));
                        }
                    }
                }
            }
            std::thread::sleep(Duration::from_micros(100));
            if t0.elapsed() > Duration::from_secs(120) {
                return Err("HARNESS: the shutdown did not come to an end in 120 s".into());
            }
        }
        let _ = h.join();
        let g = sh.0.lock().unwrap();
        let started: BTreeSet<usize> = g.started.iter().map(|x| x.0).collect();
        if g.started.len() != started.len() {
            return Err("a job was started twice".into());
        }
        for id in &accepted {
            if !g.dropped.contains(id) {
                return Err(format!("job {id} is still held after the shutdown: whoever waits for it is never told"));
            }
            if started.contains(id) && !g.finished.contains(id) {
                return Err(format!("HARNESS: job {id} started but did not finish"));
            }
        }
        for id in &waiting {
            if started.contains(id) && racing == 0 {
                return Err(format!("waiting job {id} was run by the shutdown"));
            }
        }
        drop(g);
        drop(gate);
        Ok(())
    }
}
