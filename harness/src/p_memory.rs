//! P26: what is expired, consumed, removed or abandoned leaves no memory behind.
use crate::core::{cpu_ticks, gettid, in_lib, Obs, Prop, R};
use crate::gen::*;
use crate::p_master::{add, remove, rename, snapshot, visit, NEVER};
use crate::p_system::{make_work, Kind};
use crate::vt::{self, ask, busy, pass, settle};
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::master::{CleanUp, Master};
use libmcaptcha::master::messages::{GetInternalData, SetInternalData};
use libmcaptcha::pow::ConfigBuilder;
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::HashCache;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout};
use std::future::Future;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// counts the bytes in use
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O26 {
    Issue(u8),
    Redeem(u8, Kind, u8),
    Present(u8, bool),
    /// the same challenge or token by several at once
    RedeemAll(u8, u8),
    /// several challenges at once, each from an address of its own
    Flood(u8, u8),
    PresentAll(u8, u8),
    Visit(u8),
    /// work for a challenge that never was, a token that never was
    Unknown(u8),
    /// delete an entry of the cache
    DropChallenge(u8),
    DropToken(u8),
    /// a site of this batch
    Add(u8),
    Rename(u8, u8),
    Remove(u8),
    Snapshot,
    Restore,
    Collect,
    /// begin a request, poll it this often and drop it
    Abandon(u8, u8, u8),
    Pass(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C26 {
    names: Vec<String>,
    /// difficulty, seconds
    terms: Vec<(u32, u64)>,
    gc: Option<u64>,
    runners: u8,
    queue: u16,
    batch: Vec<O26>,
}
pub struct P26;

/// batches of a first look, and of a closer one
const WARM: u32 = 12;
const WINDOW: u32 = 24;
const WINDOWS: u32 = 3;
const CLOSER: [u32; 3] = [400, 1200, 3600];
/// so long a closer look is cut short, if memory grew up to then
const ENOUGH_CPU_S: u64 = 25;
const PER_BATCH: i64 = 8;

fn batch_sites(c: &C26, n: u32) -> Vec<String> {
    (0..3).map(|i| format!("{}~{n}.{i}", c.names[i])).collect()
}

type Svc = Rc<System<HashCache, Master>>;
struct Env {
    sys: Svc,
    m: Addr<Master>,
    cache: Addr<HashCache>,
}

/// the answer to a message that is answered through a channel
macro_rules! via {
    ($what:expr, $addr:expr, $m:expr) => {{
        let rx = match ask(&$what, $addr.send($m)).await? {
            Ok(rx) => rx,
            Err(x) => return Err(format!("{}: {x}", $what)),
        };
        match ask(&$what, rx).await? {
            Ok(Ok(v)) => v,
            o => return Err(format!("{}: {:?}", $what, o.map(|r| r.map(|_| ())))),
        }
    }};
}

async fn batch(e: &Env, c: &C26, n: u32, obs: &mut Obs) -> R {
    let own = batch_sites(c, n);
    // 0..3: sites that stay, 3..6: sites of this batch
    let site = |i: u8| match i % 6 {
        i @ 0..=2 => c.names[i as usize].clone(),
        i => own[i as usize - 3].clone(),
    };
    let terms = |i: u8| c.terms[i as usize % c.terms.len()];
    let mut chals: Vec<(String, String, u32)> = vec![];
    let mut toks: Vec<(String, String)> = vec![];
    let mut snap = None;
    let mut abandoned = false;
    if c.gc.is_some() || c.batch.iter().any(|o| matches!(o, O26::Collect)) {
        // they may have been collected
        for i in 0..3 {
            let (f, d) = terms(i);
            add(&e.m, &site(i), mcaptcha(&vec![(1, f), (5, f + 3)], d)).await?;
        }
    }
    for (i, op) in c.batch.iter().enumerate() {
        let what = format!("op {i} {op:?} of batch {n}");
        let pick = |k: u8, n: usize| k as usize % n;
        match op {
            O26::Issue(s) => {
                // a visit that meets the collection of its site may fail
                if let Ok(Some(p)) = ask(&what, e.sys.get_pow(site(*s))).await? {
                    chals.push((site(*s), p.string, p.difficulty_factor));
                }
            }
            O26::Redeem(k, kind, ip) if !chals.is_empty() => {
                let (s, t, f) = &chals[pick(*k, chals.len())];
                let w = make_work("salt", t, s, "elsewhere", *f, *kind).0;
                if let Ok((t, _)) = busy(e.sys.verify_pow(w, format!("ip{n}.{ip}"))).await {
                    toks.push((s.clone(), t));
                }
            }
            O26::RedeemAll(k, m) if !chals.is_empty() => {
                let (s, t, f) = &chals[pick(*k, chals.len())];
                let w = make_work("salt", t, s, "", *f, Kind::Good).0;
                let rs = busy(futures_util::future::join_all(
                    (0..*m).map(|i| e.sys.verify_pow(w.clone(), format!("ip{n}.{i}"))),
                ))
                .await;
                toks.extend(rs.into_iter().flatten().map(|r| (s.clone(), r.0)));
            }
            O26::Flood(s, m) => {
                let mut all = vec![];
                for i in 0..*m {
                    if let Ok(Some(p)) = ask(&what, e.sys.get_pow(site(*s))).await? {
                        let w = make_work("salt", &p.string, &site(*s), "", p.difficulty_factor, Kind::Good).0;
                        all.push(e.sys.verify_pow(w, format!("flood{n}.{i}")));
                    }
                }
                for r in busy(futures_util::future::join_all(all)).await {
                    match r {
                        Ok((t, _)) => toks.push((site(*s), t)),
                        Err(CaptchaError::QueueFull) => obs.label("refused"),
                        _ => (),
                    }
                }
            }
            O26::Present(k, own) if !toks.is_empty() => {
                let (s, t) = toks[pick(*k, toks.len())].clone();
                let key = if *own { s } else { format!("other{n}") };
                ask(&what, e.sys.validate_verification_tokens(VerifyCaptchaResult { token: t, key })).await?.map_err(|x| format!("{what}: {x:?}"))?;
            }
            O26::PresentAll(k, m) if !toks.is_empty() => {
                let (s, t) = toks[pick(*k, toks.len())].clone();
                let all = (0..*m).map(|_| e.sys.validate_verification_tokens(VerifyCaptchaResult { token: t.clone(), key: s.clone() }));
                ask(&what, futures_util::future::join_all(all)).await?;
            }
            O26::Visit(s) => {
                let _ = visit(&e.m, &site(*s)).await?;
            }
            O26::Unknown(k) => {
                let w = make_work("salt", &format!("unknown{n}.{k}"), &site(*k), "", 1, Kind::Good).0;
                let _ = busy(e.sys.verify_pow(w, format!("ip{n}"))).await;
                let v = VerifyCaptchaResult { token: format!("unknown{n}.{k}"), key: format!("none{n}") };
                ask(&what, e.sys.validate_verification_tokens(v)).await?.map_err(|x| format!("{what}: {x:?}"))?;
                visit(&e.m, &format!("none{n}.{k}")).await?.map_err(|x| format!("{what}: {x:?}"))?;
            }
            O26::DropChallenge(k) => {
                let t = if chals.is_empty() { format!("unknown{n}") } else { chals[pick(*k, chals.len())].1.clone() };
                ask(&what, e.cache.send(DeletePoW(t))).await?.map_err(|x| format!("{what}: {x}"))?.map_err(|x| format!("{what}: {x:?}"))?;
            }
            O26::DropToken(k) => {
                let token = if toks.is_empty() { format!("unknown{n}") } else { toks[pick(*k, toks.len())].1.clone() };
                ask(&what, e.cache.send(DeleteCaptchaResult { token })).await?.map_err(|x| format!("{what}: {x}"))?.map_err(|x| format!("{what}: {x:?}"))?;
            }
            O26::Add(s) => {
                let (f, d) = terms(*s);
                add(&e.m, &site(*s % 3 + 3), mcaptcha(&vec![(1, f), (3, f + 2)], d)).await?
            }
            O26::Rename(a, b) => rename(&e.m, &site(*a % 3 + 3), &site(*b % 3 + 3)).await?,
            O26::Remove(s) => drop(remove(&e.m, &site(*s % 3 + 3)).await),
            O26::Snapshot => {
                let _ = snapshot(&e.m).await?;
                snap = Some(via!(what, e.m, GetInternalData));
            }
            O26::Restore => {
                if let Some(s) = &snap {
                    via!(what, e.m, SetInternalData { mcaptcha: s.clone() });
                    obs.label("restored");
                }
            }
            O26::Collect => {
                ask(&what, e.m.send(CleanUp)).await?.map_err(|x| format!("{what}: {x}"))?;
            }
            O26::Abandon(kind, k, polls) => {
                let sys = e.sys.clone();
                let (s, ip) = (site(*k), format!("ip{n}"));
                abandoned |= kind % 3 == 1;
                let mut f: std::pin::Pin<Box<dyn Future<Output = ()>>> = match kind % 3 {
                    0 => Box::pin(async move { drop(sys.get_pow(s).await) }),
                    1 if !chals.is_empty() => {
                        let (s, t, f) = &chals[pick(*k, chals.len())];
                        let w = make_work("salt", t, s, "", *f, Kind::Good).0;
                        Box::pin(async move { drop(sys.verify_pow(w, ip).await) })
                    }
                    2 if !toks.is_empty() => {
                        let (key, token) = toks[pick(*k, toks.len())].clone();
                        Box::pin(async move { drop(sys.validate_verification_tokens(VerifyCaptchaResult { token, key }).await) })
                    }
                    _ => continue,
                };
                for _ in 0..*polls {
                    let mut cx = Context::from_waker(Waker::noop());
                    if let Poll::Ready(()) = in_lib(|| f.as_mut().poll(&mut cx)) {
                        break;
                    }
                    settle(1).await;
                }
                obs.label("abandoned");
            }
            O26::Pass(ms) => pass(*ms as u64).await,
            _ => (),
        }
    }
    if abandoned {
        // the jobs left behind end as well: this one comes after them
        let m = CachePoW { string: format!("last{n}"), difficulty_factor: 1, duration: 1, key: "last".into() };
        via!("store challenge", e.cache, m);
        let w = make_work("salt", &format!("last{n}"), "last", "", 1, Kind::Weak).0;
        busy(e.sys.verify_pow(w.clone(), format!("ip{n}"))).await.map(drop).or_else(|x| match x {
            CaptchaError::InsuffiencientDifficulty | CaptchaError::QueueFull => Ok(()),
            x => Err(format!("the last work of batch {n}: {x:?}")),
        })?;
    }
    // everything ends: the sites of this batch are removed, or visited and left to the collections
    for s in &own {
        if c.gc.is_some() {
            let _ = visit(&e.m, s).await?;
        } else {
            let _ = remove(&e.m, s).await;
        }
    }
    let longest = c.terms.iter().map(|t| t.1).max().unwrap();
    pass(longest * 1000 + c.gc.unwrap_or(0) * 2000 + 2000).await;
    settle(50).await;
    Ok(())
}
fn live() -> i64 {
    // workers let go of what they verified in their own time
    let mut low = i64::MAX;
    for _ in 0..3 {
        std::thread::sleep(Duration::from_micros(300));
        low = low.min(LIVE.load(Ordering::Relaxed));
    }
    low
}

impl Prop for P26 {
    type Case = C26;
    const ID: &'static str = "P26";
    const RULE: &'static str = "the batch stores challenges, tokens or sites, or abandons requests";
    const QUICK: u32 = 4500;
    const THOROUGH: u32 = 200_000;
    const CASE_CPU: u64 = 240;
    fn strategy(_t: bool) -> BoxedStrategy<C26> {
        let kind = || prop_oneof![4 => Just(Kind::Good), 1 => Just(Kind::Weak), 1 => Just(Kind::Forged), 1 => Just(Kind::WrongSite)];
        let op = prop_oneof![
            6 => any::<u8>().prop_map(O26::Issue),
            5 => (any::<u8>(), kind(), 0..4u8).prop_map(|(a, b, c)| O26::Redeem(a, b, c)),
            1 => (any::<u8>(), 2..5u8).prop_map(|(a, b)| O26::RedeemAll(a, b)),
            1 => (any::<u8>(), 2..9u8).prop_map(|(a, b)| O26::Flood(a, b)),
            3 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| O26::Present(a, b)),
            1 => (any::<u8>(), 2..5u8).prop_map(|(a, b)| O26::PresentAll(a, b)),
            3 => any::<u8>().prop_map(O26::Visit),
            1 => any::<u8>().prop_map(O26::Unknown),
            1 => any::<u8>().prop_map(O26::DropChallenge),
            1 => any::<u8>().prop_map(O26::DropToken),
            3 => any::<u8>().prop_map(O26::Add),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| O26::Rename(a, b)),
            1 => any::<u8>().prop_map(O26::Remove),
            1 => Just(O26::Snapshot),
            1 => Just(O26::Restore),
            1 => Just(O26::Collect),
            2 => (any::<u8>(), any::<u8>(), 0..6u8).prop_map(|(a, b, c)| O26::Abandon(a, b, c)),
            2 => prop_oneof![0..3000u16, 0..30_000u16].prop_map(O26::Pass),
        ];
        (
            some_names(3),
            proptest::collection::vec((1..12u32, 1..40u64), 3),
            proptest::option::of(1..60u64),
            1..4u8,
            prop_oneof![1 => Just(0u16), 2 => Just(1), 2 => Just(2), 4 => Just(1000)],
            proptest::collection::vec(op, 1..16),
        )
            .prop_map(|(names, terms, gc, runners, queue, batch)| C26 { names, terms, gc, runners, queue, batch })
            .boxed()
    }
    fn run(c: &C26, obs: &mut Obs) -> R {
        vt::run(async {
            let m = Master::new(c.gc.unwrap_or(NEVER)).start();
            let cache = HashCache::default().start();
            let sys = SystemBuilder::default()
                .master(m.clone())
                .cache(cache.clone())
                .pow(ConfigBuilder::default().salt("salt".to_string()).build().unwrap())
                .runners(c.runners as usize)
                .queue_length(c.queue as usize)
                .build();
            let e = Env { sys: Rc::new(sys), m, cache };
            for i in 0..3 {
                let (f, d) = c.terms[i];
                add(&e.m, &c.names[i], mcaptcha(&vec![(1, f), (5, f + 3)], d)).await?;
            }
            obs.nontrivial = c.batch.iter().any(|o| matches!(o, O26::Issue(_) | O26::Flood(..) | O26::Add(_) | O26::Visit(_) | O26::Abandon(..)));
            let mut n = 0;
            let mut go = |k: u32| {
                let from = n;
                n += k;
                from..n
            };
            for i in go(WARM) {
                batch(&e, c, i, obs).await?;
            }
            let mut last = live();
            let first = last;
            let mut grew = 0;
            for _ in 0..WINDOWS {
                for i in go(WINDOW) {
                    batch(&e, c, i, obs).await?;
                }
                let l = live();
                grew += (l > last) as u32;
                last = l;
            }
            obs.count("batches", (WARM + WINDOW * WINDOWS) as u64);
            if last <= first {
                return Ok(());
            }
            // tables and channels of the runtime and the service grow now and then, but not for ever:
            // only what goes on at the same pace over ever longer runs counts
            obs.label(if grew == WINDOWS { "closer-look-steady" } else { "closer-look" });
            let mut size = vec![(WARM + WINDOW * WINDOWS, last)];
            let cpu = cpu_ticks(gettid());
            for k in CLOSER {
                let mut done = 0;
                for i in go(k) {
                    batch(&e, c, i, obs).await?;
                    done += 1;
                    // what is kept may make every batch slower than the one before
                    if size.len() > 1 && done >= 300 && cpu_ticks(gettid()) - cpu > 100 * ENOUGH_CPU_S {
                        break;
                    }
                }
                obs.count("batches", done as u64);
                size.push((size.last().unwrap().0 + done, live()));
                let [.., (_, l0), (_, l1)] = size[..] else { unreachable!() };
                if l1 - l0 < done as i64 * PER_BATCH {
                    return Ok(());
                }
                obs.label("still-growing");
                if done < k {
                    break;
                }
            }
            Err(format!("memory in use keeps growing although everything expired or was removed after every batch: (batches, bytes in use): {size:?}"))
        })
    }
}
