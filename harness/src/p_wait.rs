//! P28: a submission that waits holds nobody up, and is answered when its verdict is there.
use crate::core::{all_asleep, gettid, in_lib, tids, Obs, Prop, R};
use crate::gen::*;
use crate::p_queue::WATCHDOG;
use crate::p_system::{make_work, Kind};
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::master::{CleanUp, GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::pow::ConfigBuilder;
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::HashCache;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O28 {
    Issue(u8),
    /// a submission that is not waited for: challenge, what is submitted, address
    Submit(u8, Kind, u8),
    /// what is answered without a worker
    Unknown(u8),
    Again(u8),
    Visit(u8),
    Look(u8),
    Add(u8),
    Present(u8),
    Collect,
    Snapshot,
    /// drop a submission that waits
    Abandon(u8),
    Yields(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C28 {
    names: Vec<String>,
    /// none: every submission waits for good
    runners: u8,
    /// without workers: how many addresses may wait; every submission has an address of its own then
    #[serde(default)]
    limit: Option<u8>,
    ops: Vec<O28>,
    /// before this operation the thread has nothing to do for some milliseconds
    rest: Option<(u8, u16)>,
}
pub struct P28;

/// seconds; nothing expires within a case
const LIFE: u64 = 1_000_000;

type Svc = Rc<System<HashCache, Master>>;
type Outcome = Result<(String, u32), CaptchaError>;

/// library code that is polled only when it is woken, under the watchdog's eyes
struct Woken<F>(Pin<Box<F>>);
impl<F: Future> Future for Woken<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        in_lib(|| self.0.as_mut().poll(cx))
    }
}

struct Waiting {
    kind: Kind,
    site: u8,
    string: String,
    out: Rc<RefCell<Option<Outcome>>>,
    task: tokio::task::JoinHandle<()>,
}

/// Waits until `done`; an error once the whole process has been at rest for seconds without it.
async fn until(what: &str, mut done: impl FnMut() -> bool) -> R {
    for _ in 0..2000 {
        if done() {
            return Ok(());
        }
        tokio::task::yield_now().await;
    }
    let me = gettid();
    let (mut last, mut still) = (None, 0);
    loop {
        for _ in 0..50 {
            if done() {
                return Ok(());
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        let mut ts = tids();
        ts.remove(&me);
        ts.remove(&WATCHDOG.load(Ordering::SeqCst));
        let now = all_asleep(&ts);
        still = if now.is_some() && now == last { still + 1 } else { 0 };
        last = now;
        if still >= 30 {
            return Err(format!("{what}: not answered although nothing else goes on"));
        }
    }
}
/// the answer to a request that needs no worker
async fn answer<T: 'static>(what: &str, f: impl Future<Output = T> + 'static) -> Result<T, String> {
    let out = Rc::new(RefCell::new(None));
    let o = out.clone();
    let f = Woken(Box::pin(f));
    let task = tokio::task::spawn_local(async move {
        let r = f.await;
        *o.borrow_mut() = Some(r);
    });
    until(what, || out.borrow().is_some() || task.is_finished()).await?;
    let r = out.borrow_mut().take();
    r.ok_or(format!("{what}: the request crashed"))
}

fn judge(what: &str, kind: Kind, r: &Outcome) -> R {
    let good = match (kind, r) {
        (Kind::Good, Ok((t, _))) => t.len() == 32,
        (Kind::Good, _) => false,
        (Kind::WrongSite, Err(CaptchaError::MCaptchaKeyValidationFail)) => true,
        (Kind::WrongSite, _) => false,
        (_, r) => r.is_err(),
    };
    if good {
        Ok(())
    } else {
        Err(format!("{what}: {kind:?} work was answered {r:?}"))
    }
}

impl Prop for P28 {
    type Case = C28;
    const ID: &'static str = "P28";
    const RULE: &'static str = "a request is made while a submission of the same thread waits, or several submissions of one thread wait at once";
    const QUICK: u32 = 24_000;
    const THOROUGH: u32 = 800_000;
    const NO_REST: bool = true;
    fn strategy(_t: bool) -> BoxedStrategy<C28> {
        let kind = || prop_oneof![5 => Just(Kind::Good), 1 => Just(Kind::Weak), 1 => Just(Kind::Forged), 1 => Just(Kind::WrongSite)];
        let op = prop_oneof![
            5 => (0..3u8).prop_map(O28::Issue),
            6 => (any::<u8>(), kind(), 0..4u8).prop_map(|(a, b, c)| O28::Submit(a, b, c)),
            1 => any::<u8>().prop_map(O28::Unknown),
            1 => any::<u8>().prop_map(O28::Again),
            1 => (0..3u8).prop_map(O28::Visit),
            1 => (0..3u8).prop_map(O28::Look),
            1 => (0..3u8).prop_map(O28::Add),
            2 => any::<u8>().prop_map(O28::Present),
            1 => Just(O28::Collect),
            1 => Just(O28::Snapshot),
            1 => any::<u8>().prop_map(O28::Abandon),
            2 => (0..40u8).prop_map(|n| O28::Yields(n.into())),
            1 => (0..4000u16).prop_map(O28::Yields),
        ];
        let rest = prop_oneof![
            970 => Just(None),
            30 => (any::<u8>(), 5..60u16).prop_map(Some),
            1 => (any::<u8>(), 60..3000u16).prop_map(Some),
        ];
        (some_names(3), 0..4u8, prop_oneof![Just(None), (0..4u8).prop_map(Some)], proptest::collection::vec(op, 3..30), rest)
            .prop_map(|(names, runners, limit, ops, rest)| C28 { names, runners, limit: limit.filter(|_| runners == 0), ops, rest })
            .boxed()
    }
    fn run(c: &C28, obs: &mut Obs) -> R {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let ls = tokio::task::LocalSet::new();
        let r = ls.block_on(&rt, go(c, obs));
        in_lib(|| drop(ls));
        r
    }
}

async fn go(c: &C28, obs: &mut Obs) -> R {
    let m = Master::new(LIFE).start();
    let cache = HashCache::default().start();
    let limit = c.limit.filter(|_| c.runners == 0).map(|l| l as usize);
    // jobs of abandoned submissions that may be waiting still
    let mut left_behind = 0;
    let sys: Svc = Rc::new(
        SystemBuilder::default()
            .master(m.clone())
            .cache(cache.clone())
            .pow(ConfigBuilder::default().salt("salt".to_string()).build().unwrap())
            .runners(c.runners as usize)
            .queue_length(limit.unwrap_or(10_000))
            .build(),
    );
    let site = |s: u8| c.names[s as usize % 3].clone();
    let add = |s: u8| {
        let (m, id) = (m.clone(), site(s));
        async move { m.send(AddSite { id, mcaptcha: mcaptcha(&vec![(1_000, 3)], LIFE) }).await.ok()?.await.ok()?.ok() }
    };
    for s in 0..3 {
        answer("register", add(s)).await?.ok_or("registration failed")?;
    }
    let mut chals: Vec<(u8, String)> = vec![];
    let mut gone: Vec<(u8, String)> = vec![];
    let mut waiting: Vec<Waiting> = vec![];
    let mut toks: Vec<(u8, String)> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("op {i} {op:?} ({} submissions not answered yet, {} workers)", waiting.len(), c.runners);
        if let Some((_, ms)) = c.rest.filter(|r| r.0 as usize % c.ops.len() == i && !waiting.is_empty()) {
            tokio::time::sleep(Duration::from_millis(ms.into())).await;
            obs.label("rested");
        }
        // what was answered meanwhile
        let mut k = 0;
        while k < waiting.len() {
            if waiting[k].out.borrow().is_none() && !waiting[k].task.is_finished() {
                k += 1;
                continue;
            }
            let w = waiting.remove(k);
            let r = w.out.borrow_mut().take().ok_or(format!("{what}: a submission crashed"))?;
            if let (Some(l), true) = (limit, w.kind != Kind::WrongSite) {
                let others = waiting.iter().filter(|w| w.kind != Kind::WrongSite).count() + left_behind;
                if !matches!(r, Err(CaptchaError::QueueFull)) || others < l {
                    return Err(format!("{what}: {others} submissions and as many addresses wait, {l} may, and one is answered {r:?}"));
                }
                obs.label("refused-while-others-wait");
                continue;
            }
            judge(&what, w.kind, &r)?;
            if let Ok((t, _)) = r {
                toks.push((w.site, t));
            }
        }
        if !waiting.is_empty() && !matches!(op, O28::Yields(_) | O28::Abandon(_)) {
            obs.nontrivial = true;
            obs.label(if c.runners == 0 { "while-all-wait" } else { "while-some-wait" });
        }
        match op {
            O28::Issue(s) => {
                let (sys, id) = (sys.clone(), site(*s));
                match answer(&what, async move { sys.get_pow(id).await }).await? {
                    Ok(Some(p)) => chals.push((*s % 3, p.string)),
                    r => return Err(format!("{what}: answered {r:?}")),
                }
            }
            O28::Submit(k, kind, ip) if !chals.is_empty() => {
                let (s, string) = chals.remove(*k as usize % chals.len());
                let w = make_work("salt", &string, &site(s), "elsewhere", 3, *kind).0;
                gone.push((s, string.clone()));
                let out = Rc::new(RefCell::new(None));
                let ip = if limit.is_some() { format!("own{i}") } else { format!("ip{ip}") };
                let (o, sys) = (out.clone(), sys.clone());
                let queued = |w: &&Waiting| w.kind != Kind::WrongSite && w.out.borrow().is_none();
                let full = *kind != Kind::WrongSite && limit.is_some_and(|l| waiting.iter().filter(queued).count() >= l);
                let task = tokio::task::spawn_local(async move {
                    let r = Woken(Box::pin(async { sys.verify_pow(w, ip).await })).await;
                    *o.borrow_mut() = Some(r);
                });
                waiting.push(Waiting { kind: *kind, site: s, string, out, task });
                if full {
                    // one more than may wait: one of them is told so
                    let answered = |w: &Waiting| w.kind != Kind::WrongSite && (w.out.borrow().is_some() || w.task.is_finished());
                    until(&what, || waiting.iter().any(answered)).await?;
                }
            }
            O28::Unknown(k) => {
                let w = make_work("salt", &format!("unknown{k}"), &site(*k), "elsewhere", 1, Kind::Good).0;
                let sys = sys.clone();
                let r = answer(&what, async move { sys.verify_pow(w, "ip".into()).await }).await?;
                if !matches!(r, Err(CaptchaError::StringNotFound)) {
                    return Err(format!("{what}: answered {r:?}"));
                }
            }
            O28::Again(k) if !gone.is_empty() => {
                // the first submission of it has at least been begun
                let (s, string) = gone[*k as usize % gone.len()].clone();
                let w = make_work("salt", &string, &site(s), "elsewhere", 3, Kind::Good).0;
                let sys = sys.clone();
                let r = answer(&what, async move { sys.verify_pow(w, "ip".into()).await }).await?;
                if !matches!(r, Err(CaptchaError::StringNotFound)) {
                    return Err(format!("{what}: answered {r:?}"));
                }
            }
            O28::Visit(s) => {
                let (m, id) = (m.clone(), site(*s));
                let r = answer(&what, async move { m.send(AddVisitor(id)).await.ok()?.await.ok()?.ok()? }).await?;
                if r.is_none() {
                    return Err(format!("{what}: not counted"));
                }
            }
            O28::Look(s) => {
                let (m, id) = (m.clone(), site(*s));
                let r = answer(&what, async move { m.send(GetSite(id)).await.ok()? }).await?;
                if r.is_none() {
                    return Err(format!("{what}: not found"));
                }
            }
            O28::Add(s) => {
                answer(&what, add(*s)).await?.ok_or(format!("{what}: failed"))?;
            }
            O28::Present(k) => {
                let mine = if toks.is_empty() { None } else { Some(toks.remove(*k as usize % toks.len())) };
                let want = mine.is_some();
                let (s, token) = mine.unwrap_or((*k % 3, format!("unknown{k}")));
                let (sys, key) = (sys.clone(), site(s));
                let r = answer(&what, async move { sys.validate_verification_tokens(VerifyCaptchaResult { token, key }).await }).await?;
                if !matches!(&r, Ok(b) if *b == want) {
                    return Err(format!("{what}: answered {r:?}, expected {want}"));
                }
            }
            O28::Collect => {
                let m = m.clone();
                answer(&what, async move { m.send(CleanUp).await.ok() }).await?.ok_or(format!("{what}: failed"))?;
                // sites without visitors may be gone
                for s in 0..3 {
                    answer(&what, add(s)).await?.ok_or(format!("{what}: registration failed"))?;
                }
            }
            O28::Snapshot => {
                let m = m.clone();
                answer(&what, async move { m.send(GetInternalData).await.ok()?.await.ok()?.ok() }).await?.ok_or(format!("{what}: failed"))?;
            }
            O28::Abandon(k) if !waiting.is_empty() => {
                let w = waiting.remove(*k as usize % waiting.len());
                w.task.abort();
                left_behind += 1;
                // it may not even have begun
                gone.retain(|g| g.1 != w.string);
                until(&what, || w.task.is_finished()).await?;
                obs.label("abandoned");
            }
            O28::Yields(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            _ => (),
        }
        if waiting.len() > 1 {
            obs.nontrivial = true;
            obs.label("several-wait");
        }
    }
    for w in waiting {
        let what = format!("a submission at the end ({} workers)", c.runners);
        // without a worker the others wait for good
        if c.runners > 0 || w.kind == Kind::WrongSite {
            until(&what, || w.out.borrow().is_some() || w.task.is_finished()).await?;
            let r = w.out.borrow_mut().take().ok_or(format!("{what} crashed"))?;
            judge(&what, w.kind, &r)?;
            obs.label("answered-at-the-end");
        } else {
            w.task.abort();
            until(&what, || w.task.is_finished()).await?;
        }
    }
    Ok(())
}
