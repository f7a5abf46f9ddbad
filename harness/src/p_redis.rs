//! P18-P21: the Redis-backed cache, manager and connection against the server in fake.rs.
use crate::core::{Obs, Prop, R};
use crate::fake::*;
use crate::gen::*;
use crate::p_system::{judge, make_work, token_shape, Kind};
use crate::vt::busy;
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::messages::*;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::pow::{ConfigBuilder, PoWConfig};
use libmcaptcha::redis::mcaptcha_redis::{MCaptchaRedis, MCaptchaRedisConnection};
use libmcaptcha::redis::RedisConfig;
use libmcaptcha::system::{System, SystemBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Condvar, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};
use tokio::sync::oneshot::Receiver;

// ---- time ---------------------------------------------------------------------------------------
/// Runs on a paused clock that never moves by itself: the client's time limits pass only when the
/// case says so, however slow the machine is.
pub fn run<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let ls = tokio::task::LocalSet::new();
    crate::vt::on_task(&rt, &ls, async {
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        // a running blocking task keeps tokio from moving a paused clock
        let g = tokio::task::spawn_blocking(move || drop(rx.recv()));
        let r = f.await;
        drop(tx);
        let _ = g.await;
        r
    })
}

static TIMERS: Mutex<Vec<(Instant, Waker)>> = Mutex::new(Vec::new());
static TIMERS_CV: Condvar = Condvar::new();
/// real time
pub struct Real(Instant);
pub fn real(ms: u64) -> Real {
    Real(Instant::now() + Duration::from_millis(ms))
}
impl Future for Real {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if Instant::now() >= self.0 {
            return Poll::Ready(());
        }
        static START: std::sync::Once = std::sync::Once::new();
        START.call_once(|| {
            std::thread::spawn(|| {
                let mut g = TIMERS.lock().unwrap();
                loop {
                    let now = Instant::now();
                    let mut i = 0;
                    while i < g.len() {
                        if g[i].0 <= now {
                            g.swap_remove(i).1.wake();
                        } else {
                            i += 1;
                        }
                    }
                    let next = g.iter().map(|x| x.0).min();
                    g = match next {
                        None => TIMERS_CV.wait(g).unwrap(),
                        Some(t) => TIMERS_CV.wait_timeout(g, t - now).unwrap().0,
                    };
                }
            });
        });
        TIMERS.lock().unwrap().push((self.0, cx.waker().clone()));
        TIMERS_CV.notify_all();
        Poll::Pending
    }
}
async fn within<F: Future + Unpin>(f: &mut F, ms: u64) -> Option<F::Output> {
    match futures_util::future::select(f, real(ms)).await {
        futures_util::future::Either::Left((v, _)) => Some(v),
        _ => None,
    }
}
/// An answer that needs no time to pass.
pub async fn now<F: Future>(what: &str, f: F) -> Result<F::Output, String> {
    let mut f = Box::pin(f);
    for _ in 0..20 {
        if let Some(v) = within(&mut f, 1000).await {
            return Ok(v);
        }
    }
    match timed(what, f).await {
        Ok(_) => Err("HARNESS a request took 20 s of real time".into()),
        Err(e) => Err(e),
    }
}
/// An answer that may need the client's own time limits and delays to pass.
pub async fn timed<F: Future>(what: &str, f: F) -> Result<F::Output, String> {
    let mut f = Box::pin(f);
    if let Some(v) = within(&mut f, 3).await {
        return Ok(v);
    }
    for _ in 0..1500 {
        tokio::time::advance(Duration::from_millis(200)).await;
        if let Some(v) = within(&mut f, 2).await {
            return Ok(v);
        }
    }
    Err(format!("{what}: the request was never answered"))
}

// ---- requests -----------------------------------------------------------------------------------
/// what a request was answered with
#[derive(Debug, PartialEq)]
pub enum A {
    Unit,
    Bool(bool),
    Num(u64),
    /// difficulty, duration
    Terms(u32, u64),
    /// of the site, too
    Config(u32, u64, String),
    Nothing,
}
pub type Answer = Result<A, CaptchaError>;

async fn sent<M, Act, T>(what: &str, addr: &Addr<Act>, m: M) -> Result<CaptchaResult<T>, String>
where
    M: Message<Result = Receiver<CaptchaResult<T>>> + Send + 'static,
    Act: Actor<Context = actix::Context<Act>> + Handler<M>,
    T: Send + 'static,
{
    let rx = addr.send(m).await.map_err(|e| format!("{what}: the actor is gone ({e})"))?;
    rx.await.map_err(|_| format!("{what}: the actor dropped the request"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Q {
    // manager
    Register(u8, Ladder, u64),
    Visit(u8),
    Rename(u8, u8),
    Remove(u8),
    // connection
    CRegister(u8, Ladder, u64),
    CVisit(u8),
    CRename(u8, u8),
    CRemove(u8),
    Exists(u8),
    Visitors(u8),
    CStore(u8, u8, u32, u64),
    CFetch(u8, u8),
    CDrop(u8, u8),
    CToken(u8, u8, u64),
    CPresent(u8, u8),
    CDropToken(u8, u8),
    // cache
    Store(u8, u8, u32, u64),
    Fetch(u8, u8),
    Token(u8, u8, u64),
    Present(u8, u8),
}
impl Q {
    /// which of the three connections it goes over
    fn over(&self) -> usize {
        match self {
            Q::Register(..) | Q::Visit(..) | Q::Rename(..) | Q::Remove(..) => 0,
            Q::Store(..) | Q::Fetch(..) | Q::Token(..) | Q::Present(..) => 1,
            _ => 2,
        }
    }
    fn unit(&self) -> bool {
        !matches!(
            self,
            Q::Visit(..) | Q::CVisit(..) | Q::Exists(..) | Q::Visitors(..) | Q::CFetch(..) | Q::Fetch(..) | Q::CPresent(..) | Q::Present(..)
        )
    }
    fn json(&self) -> bool {
        matches!(self, Q::Visit(..) | Q::CVisit(..) | Q::CFetch(..) | Q::Fetch(..))
    }
}
pub fn requests(sites: u8, strings: u8) -> BoxedStrategy<Q> {
    let s = move || 0..sites;
    let t = move || 0..strings;
    let d = || prop_oneof![6 => 1..20u64, 2 => 20..100_000u64, 1 => 1u64..1 << 40];
    let f = || prop_oneof![3 => 1..100u32, 1 => 1..=u32::MAX];
    let lad = || prop_oneof![60 => ladder(4, 3, 3, 40), 30 => wide_ladder(5), 1 => wide_ladder(150)];
    prop_oneof![
        2 => (s(), lad(), d()).prop_map(|(a, b, c)| Q::Register(a, b, c)),
        4 => s().prop_map(Q::Visit),
        1 => (s(), s()).prop_map(|(a, b)| Q::Rename(a, b)),
        1 => s().prop_map(Q::Remove),
        1 => (s(), lad(), d()).prop_map(|(a, b, c)| Q::CRegister(a, b, c)),
        2 => s().prop_map(Q::CVisit),
        1 => (s(), s()).prop_map(|(a, b)| Q::CRename(a, b)),
        1 => s().prop_map(Q::CRemove),
        2 => s().prop_map(Q::Exists),
        3 => s().prop_map(Q::Visitors),
        1 => (s(), t(), f(), d()).prop_map(|(a, b, c, e)| Q::CStore(a, b, c, e)),
        1 => (s(), t()).prop_map(|(a, b)| Q::CFetch(a, b)),
        1 => (s(), t()).prop_map(|(a, b)| Q::CDrop(a, b)),
        1 => (s(), t(), d()).prop_map(|(a, b, c)| Q::CToken(a, b, c)),
        1 => (s(), t()).prop_map(|(a, b)| Q::CPresent(a, b)),
        1 => (s(), t()).prop_map(|(a, b)| Q::CDropToken(a, b)),
        2 => (s(), t(), f(), d()).prop_map(|(a, b, c, e)| Q::Store(a, b, c, e)),
        2 => (s(), t()).prop_map(|(a, b)| Q::Fetch(a, b)),
        2 => (s(), t(), d()).prop_map(|(a, b, c)| Q::Token(a, b, c)),
        2 => (s(), t()).prop_map(|(a, b)| Q::Present(a, b)),
    ]
    .boxed()
}

/// site names and strings: separators in places where joined forms of different pairs coincide,
/// near misses, spaces, non-ASCII
pub fn pools() -> BoxedStrategy<(Vec<String>, Vec<String>)> {
    let odd = || {
        prop_oneof![
            4 => "[ab:1]{0,4}",
            2 => (0..NAMES.len() as u8).prop_map(name),
            1 => any::<String>().prop_map(|s| s.chars().take(12).collect()),
            1 => "[a-zA-Z0-9]{32}",
        ]
    };
    let free = (proptest::collection::vec(odd(), 4), proptest::collection::vec(odd(), 5)).boxed();
    let joined = ("[ab1]{0,2}", "[ab1]{0,2}", "[ab1]{1,2}", prop_oneof![4 => Just(":"), 1 => Just("::"), 1 => Just("/"), 1 => Just(" ")])
        .prop_map(|(x, y, z, c)| {
            (
                vec![x.clone(), format!("{x}{c}{y}"), format!("{x}{y}"), y.clone()],
                vec![z.clone(), format!("{y}{c}{z}"), format!("{y}{z}"), format!("{x}{c}{y}{c}{z}"), format!("{c}{z}")],
            )
        })
        .boxed();
    let near = (some_names(4), some_names(5)).boxed();
    prop_oneof![2 => free, 2 => joined, 1 => near].boxed()
}

pub struct RedisEnv {
    pub fake: Fake,
    pub m: Addr<RMaster>,
    pub cache: Addr<RedisCache>,
    pub con: MCaptchaRedisConnection,
    pub sites: Vec<String>,
    pub strings: Vec<String>,
}
impl RedisEnv {
    pub async fn new(sites: &[String], strings: &[String]) -> Result<RedisEnv, String> {
        let fake = Fake::start();
        let cfg = RedisConfig::Single(fake.url());
        Self::over(fake, cfg, sites, strings).await
    }
    pub async fn over(fake: Fake, cfg: RedisConfig, sites: &[String], strings: &[String]) -> Result<RedisEnv, String> {
        let m = now("connect", RMaster::new(cfg.clone())).await?.map_err(|e| format!("connect: {e:?}"))?.start();
        let cache = now("connect", RedisCache::new(cfg.clone())).await?.map_err(|e| format!("connect: {e:?}"))?.start();
        let con = now("connect", MCaptchaRedis::new(cfg)).await?.map_err(|e| format!("connect: {e:?}"))?.get_client();
        Ok(RedisEnv { fake, m, cache, con, sites: sites.to_vec(), strings: strings.to_vec() })
    }
    pub fn site(&self, i: u8) -> String {
        self.sites[i as usize % self.sites.len()].clone()
    }
    pub fn string(&self, i: u8) -> String {
        self.strings[i as usize % self.strings.len()].clone()
    }
    pub async fn ask(&self, q: &Q) -> Result<Answer, String> {
        let w = format!("{q:?}");
        let v = |s: &u8, t: &u8| VerifyCaptchaResult { token: self.string(*t), key: self.site(*s) };
        let terms = |r: CaptchaResult<Option<libmcaptcha::master::AddVisitorResult>>| {
            r.map(|x| x.map_or(A::Nothing, |x| A::Terms(x.difficulty_factor, x.duration)))
        };
        let unit = |r: CaptchaResult<()>| r.map(|_| A::Unit);
        Ok(match q {
            Q::Register(s, l, d) => unit(sent(&w, &self.m, AddSite { id: self.site(*s), mcaptcha: mcaptcha(l, *d) }).await?),
            Q::Visit(s) => terms(sent(&w, &self.m, AddVisitor(self.site(*s))).await?),
            Q::Rename(a, b) => unit(sent(&w, &self.m, Rename { name: self.site(*a), rename_to: self.site(*b) }).await?),
            Q::Remove(s) => unit(sent(&w, &self.m, RemoveCaptcha(self.site(*s))).await?),
            Q::CRegister(s, l, d) => unit(self.con.add_mcaptcha(AddSite { id: self.site(*s), mcaptcha: mcaptcha(l, *d) }).await),
            Q::CVisit(s) => terms(self.con.add_visitor(AddVisitor(self.site(*s))).await),
            Q::CRename(a, b) => unit(self.con.rename_captcha(&self.site(*a), &self.site(*b)).await),
            Q::CRemove(s) => unit(self.con.delete_captcha(&self.site(*s)).await),
            Q::Exists(s) => self.con.check_captcha_exists(&self.site(*s)).await.map(A::Bool),
            Q::Visitors(s) => self.con.get_visitors(&self.site(*s)).await.map(|n| A::Num(n as u64)),
            Q::CStore(s, t, f, d) => unit(
                self.con
                    .add_challenge(&self.site(*s), &AddChallenge { challenge: self.string(*t), difficulty: *f, duration: *d })
                    .await,
            ),
            Q::CFetch(s, t) => self.con.get_challenge(&v(s, t)).await.map(|x| A::Terms(x.difficulty_factor, x.duration)),
            Q::CDrop(s, t) => unit(self.con.delete_challenge(&v(s, t)).await),
            Q::CToken(s, t, d) => {
                unit(self.con.add_token(&CacheResult { token: self.string(*t), key: self.site(*s), duration: *d }).await)
            }
            Q::CPresent(s, t) => self.con.get_token(&v(s, t)).await.map(A::Bool),
            Q::CDropToken(s, t) => unit(self.con.delete_token(&v(s, t)).await),
            Q::Store(s, t, f, d) => unit(
                sent(&w, &self.cache, CachePoW { string: self.string(*t), difficulty_factor: *f, duration: *d, key: self.site(*s) })
                    .await?,
            ),
            Q::Fetch(s, t) => sent(&w, &self.cache, RetrivePoW(v(s, t)))
                .await?
                .map(|x| x.map_or(A::Nothing, |x| A::Config(x.difficulty_factor, x.duration, x.key))),
            Q::Token(s, t, d) => {
                unit(sent(&w, &self.cache, CacheResult { token: self.string(*t), key: self.site(*s), duration: *d }).await?)
            }
            Q::Present(s, t) => sent(&w, &self.cache, v(s, t)).await?.map(A::Bool),
        })
    }
}

/// What callers are promised, in terms of sites and strings only.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Promise {
    pub module: Module,
    pub toks: BTreeMap<(String, String), u64>,
}
impl Promise {
    pub fn pass(&mut self, ms: u64) {
        self.module.pass(ms);
        let now = self.module.now;
        self.toks.retain(|_, u| *u > now);
    }
    /// how long to `d` ms around the end of the `k`-th of what ends
    fn until(&self, k: u8, d: i16) -> Option<u64> {
        let ends: Vec<u64> = self
            .toks
            .values()
            .copied()
            .chain(self.module.chals.values().map(|c| c.until))
            .chain(self.module.sites.values().flat_map(|s| s.visits.iter().copied()))
            // time the server can count
            .filter(|t| *t < 1 << 52)
            .collect();
        let to = *ends.get(k as usize % ends.len().max(1))?;
        Some(to.saturating_add_signed(d as i64).saturating_sub(self.module.now))
    }
    /// None: an error, or nothing
    pub fn apply(&mut self, e: &RedisEnv, q: &Q) -> Option<A> {
        let s = |i: &u8| e.site(*i).into_bytes();
        let m = &mut self.module;
        let unit = |b: bool| if b { Some(A::Unit) } else { None };
        match q {
            Q::Register(a, l, d) | Q::CRegister(a, l, d) => {
                m.add_captcha(&s(a), l.clone(), *d);
                Some(A::Unit)
            }
            Q::Visit(a) | Q::CVisit(a) => m.add_visitor(&s(a)).map(|(f, d)| A::Terms(f, d)),
            Q::Rename(a, b) | Q::CRename(a, b) => unit(m.rename(&s(a), &s(b))),
            Q::Remove(a) | Q::CRemove(a) => unit(m.del_captcha(&s(a))),
            Q::Exists(a) => Some(A::Bool(m.exists(&s(a)))),
            Q::Visitors(a) => m.visitors(&s(a)).map(A::Num),
            Q::Store(a, t, f, d) | Q::CStore(a, t, f, d) => {
                m.add_challenge(&s(a), e.string(*t).as_bytes(), *f, *d);
                Some(A::Unit)
            }
            Q::CFetch(a, t) => m.take_challenge(&s(a), e.string(*t).as_bytes()).map(|c| A::Terms(c.difficulty, c.duration)),
            Q::Fetch(a, t) => {
                m.take_challenge(&s(a), e.string(*t).as_bytes()).map(|c| A::Config(c.difficulty, c.duration, e.site(*a)))
            }
            Q::CDrop(a, t) => unit(m.take_challenge(&s(a), e.string(*t).as_bytes()).is_some()),
            Q::Token(a, t, d) | Q::CToken(a, t, d) => {
                let until = m.now.saturating_add(d.saturating_mul(1000));
                self.toks.insert((e.site(*a), e.string(*t)), until);
                Some(A::Unit)
            }
            Q::Present(a, t) | Q::CPresent(a, t) => Some(A::Bool(self.toks.remove(&(e.site(*a), e.string(*t))).is_some())),
            Q::CDropToken(a, t) => {
                self.toks.remove(&(e.site(*a), e.string(*t)));
                Some(A::Unit)
            }
        }
    }
}
pub fn same(what: &str, got: &Answer, want: &Option<A>) -> R {
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_) | Ok(A::Nothing), None) => Ok(()),
        _ => Err(format!("{what}: answered {got:?}, expected {want:?} (None: an error or nothing)")),
    }
}

// ---- P18 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O18 {
    Ask(Q),
    /// presentations and fetches at once: (site, string, token?)
    Together(Vec<(u8, u8, bool)>),
    Pass(u64),
    /// to so many ms around the deadline of the k-th live challenge or token
    Until(u8, i16),
    Issue(u8),
    Redeem(u8, Kind),
    SysPresent(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C18 {
    sites: Vec<String>,
    strings: Vec<String>,
    ops: Vec<O18>,
}
pub struct P18;

fn cache_requests() -> BoxedStrategy<Q> {
    let s = || 0..4u8;
    let t = || 0..5u8;
    let d = || prop_oneof![6 => 1..20u64, 2 => 20..100_000u64, 1 => 1u64..1 << 40];
    let f = || prop_oneof![3 => 1..100u32, 1 => 1..=u32::MAX];
    prop_oneof![
        4 => (s(), t(), f(), d()).prop_map(|(a, b, c, e)| Q::Store(a, b, c, e)),
        4 => (s(), t()).prop_map(|(a, b)| Q::Fetch(a, b)),
        5 => (s(), t(), d()).prop_map(|(a, b, c)| Q::Token(a, b, c)),
        6 => (s(), t()).prop_map(|(a, b)| Q::Present(a, b)),
        1 => (s(), t()).prop_map(|(a, b)| Q::CDrop(a, b)),
        1 => (s(), t()).prop_map(|(a, b)| Q::CDropToken(a, b)),
    ]
    .boxed()
}

impl Prop for P18 {
    type Case = C18;
    const ID: &'static str = "P18";
    const RULE: &'static str = "a stored entry is asked for under another site, again, or after its time";
    const QUICK: u32 = 16_000;
    const THOROUGH: u32 = 500_000;
    fn strategy(_t: bool) -> BoxedStrategy<C18> {
        let op = prop_oneof![
            12 => cache_requests().prop_map(O18::Ask),
            2 => proptest::collection::vec((0..4u8, 0..5u8, any::<bool>()), 2..6).prop_map(O18::Together),
            2 => prop_oneof![0..3000u64, 0..25_000u64, Just(1000u64)].prop_map(O18::Pass),
            2 => (any::<u8>(), prop_oneof![2 => -3..4i16, 1 => -2000..2000i16]).prop_map(|(k, d)| O18::Until(k, d)),
            2 => (0..4u8).prop_map(O18::Issue),
            2 => (any::<u8>(), prop_oneof![3 => Just(Kind::Good), 1 => Just(Kind::Weak), 1 => Just(Kind::WrongSite)]).prop_map(|(a, b)| O18::Redeem(a, b)),
            2 => (any::<u8>(), prop_oneof![2 => Just(9u8), 1 => 0..4u8]).prop_map(|(a, b)| O18::SysPresent(a, b)),
        ];
        (pools(), proptest::collection::vec(op, 1..30))
            .prop_map(|((sites, strings), ops)| C18 { sites, strings, ops })
            .boxed()
    }
    fn run(c: &C18, obs: &mut Obs) -> R {
        run(async {
            let e = RedisEnv::new(&c.sites, &c.strings).await?;
            let mut p = Promise::default();
            let sys: System<RedisCache, RMaster> = SystemBuilder::default()
                .master(e.m.clone())
                .cache(e.cache.clone())
                .pow(ConfigBuilder::default().salt("salt".to_string()).build().unwrap())
                .runners(1)
                .queue_length(100)
                .build();
            // every site with a difficulty and duration of its own
            let mut terms: BTreeMap<String, (u32, u64)> = BTreeMap::new();
            for i in 0..4u8 {
                let (f, d) = (2 + i as u32, 3 + 4 * i as u64);
                let q = Q::Register(i, vec![(1_000_000, f)], d);
                let r = now("register", e.ask(&q)).await??;
                same("register", &r, &p.apply(&e, &q))?;
                terms.insert(e.site(i), (f, d));
            }
            let mut issued: Vec<(String, String)> = vec![];
            let mut earned: Vec<(String, String)> = vec![];
            // pairs that were ever stored
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?} (sites {:?}, strings {:?})", c.sites, c.strings);
                match op {
                    O18::Ask(q) => {
                        let r = now(&what, e.ask(q)).await??;
                        let w = p.apply(&e, q);
                        same(&what, &r, &w)?;
                        match q {
                            Q::Store(_, t, ..) | Q::Token(_, t, ..) => {
                                seen.insert(e.string(*t));
                                obs.label("stored");
                            }
                            Q::Fetch(_, t) | Q::Present(_, t) => {
                                let hit = !matches!(w, None | Some(A::Bool(false)));
                                obs.label(if hit { "found" } else { "not-found" });
                                obs.nontrivial |= !hit && seen.contains(&e.string(*t));
                            }
                            _ => obs.label("deleted"),
                        }
                    }
                    O18::Together(v) => {
                        let qs: Vec<Q> = v.iter().map(|(s, t, k)| if *k { Q::Present(*s, *t) } else { Q::Fetch(*s, *t) }).collect();
                        let rs = now(&what, futures_util::future::join_all(qs.iter().map(|q| e.ask(q)))).await?;
                        // of the same request, exactly one may succeed; different ones do not interact
                        let mut groups: BTreeMap<(String, String, bool), Vec<Answer>> = BTreeMap::new();
                        for ((s, t, k), r) in v.iter().zip(rs) {
                            groups.entry((e.site(*s), e.string(*t), *k)).or_default().push(r?);
                        }
                        for (k, l) in &groups {
                            let q = v.iter().zip(&qs).find(|(x, _)| (e.site(x.0), e.string(x.1), x.2) == *k).unwrap().1;
                            let w = p.apply(&e, q);
                            let hit = !matches!(w, None | Some(A::Bool(false)));
                            let hits = l.iter().filter(|a| !matches!(a, Err(_) | Ok(A::Nothing) | Ok(A::Bool(false)))).count();
                            if hits != hit as usize {
                                return Err(format!("{what}: {k:?} asked {} times at once: {l:?}", l.len()));
                            }
                            if hit {
                                let a = l.iter().find(|a| !matches!(a, Err(_) | Ok(A::Nothing) | Ok(A::Bool(false)))).unwrap();
                                same(&what, a, &w)?;
                            }
                            obs.nontrivial |= l.len() > 1 && hit;
                        }
                        obs.label("together");
                    }
                    O18::Until(k, d) => {
                        if let Some(ms) = p.until(*k, *d) {
                            e.fake.pass(ms);
                            p.pass(ms);
                            obs.label("to-a-deadline");
                        }
                    }
                    O18::Pass(ms) => {
                        e.fake.pass(*ms);
                        p.pass(*ms);
                    }
                    O18::Issue(s) => {
                        let site = e.site(*s);
                        let r: PoWConfig = now(&what, sys.get_pow(site.clone()))
                            .await?
                            .map_err(|x| format!("{what}: {x:?}"))?
                            .ok_or(format!("{what}: no challenge for a registered site"))?;
                        token_shape("challenge", &r.string)?;
                        let (f, d) = terms[&site];
                        if r.difficulty_factor != f || r.salt != "salt" {
                            return Err(format!("{what}: {r:?}, the site's difficulty is {f}"));
                        }
                        p.module.add_visitor(site.as_bytes());
                        p.module.add_challenge(site.as_bytes(), r.string.as_bytes(), f, d);
                        issued.push((site, r.string));
                        obs.label("issued");
                    }
                    O18::Redeem(k, kind) => {
                        if issued.is_empty() {
                            continue;
                        }
                        let (site, string) = issued[*k as usize % issued.len()].clone();
                        let other = c.sites.iter().find(|s| **s != site).cloned();
                        let kind = if other.is_none() && *kind == Kind::WrongSite { Kind::Good } else { *kind };
                        let (w, want) = make_work("salt", &string, &site, &other.unwrap_or_default(), terms[&site].0, kind);
                        let r = now(&what, busy(sys.verify_pow(w, "ip".into()))).await?;
                        let taken = if kind == Kind::WrongSite {
                            obs.label("wrong-site");
                            None
                        } else {
                            p.module.take_challenge(site.as_bytes(), string.as_bytes())
                        };
                        match taken {
                            // unknown under that site, consumed or expired
                            None => {
                                if r.is_ok() {
                                    return Err(format!("{what}: answered {r:?}"));
                                }
                                obs.nontrivial = true;
                            }
                            Some(c) => judge(&what, &r, want, c.difficulty)?,
                        }
                        if let Ok((t, _)) = r {
                            let until = p.module.now + terms[&site].1 * 1000;
                            p.toks.insert((site.clone(), t.clone()), until);
                            earned.push((site, t));
                            obs.label("earned");
                        }
                    }
                    O18::SysPresent(k, s) => {
                        if earned.is_empty() {
                            continue;
                        }
                        let (own, t) = earned[*k as usize % earned.len()].clone();
                        let site = if *s == 9 { own } else { e.site(*s) };
                        let want = p.toks.remove(&(site.clone(), t.clone())).is_some();
                        let got = now(&what, sys.validate_verification_tokens(VerifyCaptchaResult { token: t, key: site }))
                            .await?
                            .map_err(|x| format!("{what}: {x:?}"))?;
                        if got != want {
                            return Err(format!("{what}: answered {got}, expected {want}"));
                        }
                        obs.label(if want { "confirmed" } else { "refused" });
                        obs.nontrivial |= !want;
                    }
                }
            }
            Ok(())
        })
    }
}

// ---- P19 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O19 {
    Ask(Q),
    Pass(u64),
    /// to so many ms around the end of the k-th visit, challenge or token
    Until(u8, i16),
    /// on one connection at once, about different sites: visits and counts
    Together(Vec<(u8, bool)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C19 {
    sites: Vec<String>,
    strings: Vec<String>,
    ops: Vec<O19>,
}
pub struct P19;
impl Prop for P19 {
    type Case = C19;
    const ID: &'static str = "P19";
    const RULE: &'static str = "a site is asked about after it was renamed, removed, replaced or time has passed";
    const QUICK: u32 = 20_000;
    const THOROUGH: u32 = 600_000;
    fn strategy(_t: bool) -> BoxedStrategy<C19> {
        let op = prop_oneof![
            14 => requests(4, 5).prop_map(O19::Ask),
            2 => prop_oneof![0..3000u64, 0..25_000u64, Just(1000u64)].prop_map(O19::Pass),
            1 => (any::<u8>(), prop_oneof![2 => -3..4i16, 1 => -2000..2000i16]).prop_map(|(k, d)| O19::Until(k, d)),
            1 => proptest::collection::vec((0..4u8, any::<bool>()), 2..5).prop_map(O19::Together),
        ];
        (pools(), proptest::collection::vec(op, 1..40))
            .prop_map(|((sites, strings), ops)| C19 { sites, strings, ops })
            .boxed()
    }
    fn run(c: &C19, obs: &mut Obs) -> R {
        run(async {
            let e = RedisEnv::new(&c.sites, &c.strings).await?;
            let mut p = Promise::default();
            let mut touched = false;
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?} (sites {:?}, strings {:?})", c.sites, c.strings);
                match op {
                    O19::Ask(q) => {
                        let r = now(&what, e.ask(q)).await??;
                        let w = p.apply(&e, q);
                        same(&what, &r, &w)?;
                        match q {
                            Q::Register(..) | Q::CRegister(..) => obs.label("registered"),
                            Q::Rename(..) | Q::CRename(..) | Q::Remove(..) | Q::CRemove(..) => {
                                touched |= w.is_some();
                                obs.label(if w.is_some() { "moved" } else { "unknown" });
                            }
                            Q::Visit(..) | Q::CVisit(..) | Q::Visitors(..) | Q::Exists(..) => {
                                obs.nontrivial |= touched;
                                obs.label(if w.is_some() { "asked" } else { "unknown" });
                            }
                            _ => obs.label("entry"),
                        }
                    }
                    O19::Until(k, d) => {
                        if let Some(ms) = p.until(*k, *d) {
                            e.fake.pass(ms);
                            p.pass(ms);
                            touched = true;
                            obs.label("to-a-deadline");
                        }
                    }
                    O19::Pass(ms) => {
                        e.fake.pass(*ms);
                        p.pass(*ms);
                        touched |= p.module.sites.values().any(|s| !s.visits.is_empty());
                    }
                    O19::Together(v) => {
                        let mut done: BTreeSet<String> = BTreeSet::new();
                        let qs: Vec<Q> = v
                            .iter()
                            .filter(|x| done.insert(e.site(x.0)))
                            .map(|(s, k)| if *k { Q::CVisit(*s) } else { Q::Visitors(*s) })
                            .collect();
                        let rs = now(&what, futures_util::future::join_all(qs.iter().map(|q| e.ask(q)))).await?;
                        for (q, r) in qs.iter().zip(rs) {
                            same(&format!("{what} {q:?}"), &r?, &p.apply(&e, q))?;
                        }
                        obs.label("together");
                    }
                }
                // the server holds what was asked for, neither more nor less
                let held = e.fake.with(|s| s.module.clone());
                if held.sites != p.module.sites {
                    return Err(format!("{what}: the server's sites are {:?}, asked for were {:?}", held.sites, p.module.sites));
                }
                if held.chals != p.module.chals {
                    return Err(format!("{what}: the server's challenges are {:?}, asked for were {:?}", held.chals, p.module.chals));
                }
                if held.kv.len() != p.toks.len() {
                    return Err(format!("{what}: the server holds {:?}, stored tokens are {:?}", held.kv, p.toks));
                }
            }
            Ok(())
        })
    }
}

// ---- P20 ----------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum F20 {
    Error(u8),
    Odd(u8),
    Drop(bool),
    Stall(bool),
    Garbage(u8),
    /// the server is away for so many requests
    Away(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C20 {
    ops: Vec<(Q, Option<F20>)>,
    unsupported: bool,
    /// the connection is tried out before the .0-th request; it is answered this
    pings: Vec<(u8, u8)>,
}
pub struct P20;

fn errors(i: u8) -> Reply {
    Reply::Err(
        ["ERR something", "WRONGTYPE Operation against a key", "LOADING Redis is loading the dataset in memory", "OOM command not allowed", "NOPERM no permissions", "READONLY You can't write against a read only replica.", "ERR", "MASTERDOWN Link with MASTER is down"]
            [i as usize % 8]
            .into(),
    )
}
/// answers no server honouring the commands gives
fn odd(i: u8, json: bool) -> Reply {
    let j = [
        Reply::Nil,
        Reply::Int(5),
        bulk(""),
        bulk("{"),
        bulk("null"),
        bulk("{\"duration\":1}"),
        bulk("{\"duration\":-1,\"difficulty_factor\":3}"),
        bulk("{\"duration\":1,\"difficulty_factor\":8589934592}"),
        Reply::Bulk(vec![0xff, 0xfe]),
        Reply::Array(vec![]),
        Reply::Simple("OK".into()),
        bulk("{\"duration\":\"1\",\"difficulty_factor\":3}"),
        bulk("{\"difficulty_factor\":3}"),
    ];
    let n = [
        Reply::Nil,
        bulk("abc"),
        bulk(""),
        Reply::Simple("OK".into()),
        Reply::Array(vec![]),
        Reply::Int(-1),
        Reply::Int(i64::MIN),
        Reply::Bulk(vec![0xff, 0xfe]),
    ];
    if json {
        j[i as usize % j.len()].clone()
    } else {
        n[i as usize % n.len()].clone()
    }
}
/// no answers of a server that is well
fn no_pong(i: u8) -> Reply {
    let simple = |s: &str| Reply::Simple(s.into());
    match i {
        0..=7 => errors(i),
        8 => Reply::Nil,
        9 => Reply::Int(1),
        10 => simple("OK"),
        11 => simple("LOADING"),
        12 => bulk(""),
        13 => Reply::Array(vec![]),
        14 => simple("QUEUED"),
        _ => simple(""),
    }
}
fn garbage(i: u8) -> Reply {
    Reply::Raw([&b"hello\r\n"[..], b"$5\r\nab\r\n+OK\r\n", b"\0\0\0\r\n", b":12x\r\n", b"*1000000000\r\n:x\r\n", b"?\r\n"][i as usize % 6].to_vec())
}

/// Requests about a site that does not exist, until the server gets to see one again.
async fn heal(e: &RedisEnv, over: usize) -> R {
    for _ in 0..40 {
        let from = e.fake.with(|s| s.log.len());
        match over {
            0 => drop(timed("a rename after the server recovered", sent("rename", &e.m, Rename { name: "-".into(), rename_to: "+".into() })).await??),
            1 => {
                let m = RetrivePoW(VerifyCaptchaResult { token: "-".into(), key: "-".into() });
                drop(timed("a fetch after the server recovered", sent("fetch", &e.cache, m)).await??)
            }
            _ => drop(timed("a count after the server recovered", e.con.get_visitors("-")).await?),
        }
        let seen = e.fake.with(|s| {
            s.log[from..].iter().any(|l| l.get(1).map(|s| s.as_str()) == Some("-") && l[0].starts_with("MCAPTCHA"))
        });
        if seen {
            return Ok(());
        }
        tokio::time::advance(Duration::from_millis(500)).await;
        real(2).await;
    }
    Err("the server is back, but 40 requests did not reach it".into())
}

impl Prop for P20 {
    type Case = C20;
    const ID: &'static str = "P20";
    const RULE: &'static str = "a failing request was followed by one that succeeds";
    const QUICK: u32 = 12_000;
    const THOROUGH: u32 = 300_000;
    fn strategy(_t: bool) -> BoxedStrategy<C20> {
        let f = prop_oneof![
            8 => (0..8u8).prop_map(F20::Error),
            10 => (0..16u8).prop_map(F20::Odd),
            3 => any::<bool>().prop_map(F20::Drop),
            1 => any::<bool>().prop_map(F20::Stall),
            2 => (0..6u8).prop_map(F20::Garbage),
            1 => (1..3u8).prop_map(F20::Away),
        ];
        (proptest::collection::vec((requests(3, 3), proptest::option::weighted(0.3, f)), 1..14), proptest::bool::weighted(0.1), proptest::collection::vec((0..14u8, 0..16u8), 0..3))
            .prop_map(|(ops, unsupported, pings)| C20 { ops, unsupported, pings })
            .boxed()
    }
    fn run(c: &C20, obs: &mut Obs) -> R {
        run(async {
            let names: Vec<String> = ["a", "b", "c"].iter().map(|s| s.to_string()).collect();
            let e = RedisEnv::new(&names, &names).await?;
            let mut p = Promise::default();
            // each of the three has something to answer
            for i in 0..2u8 {
                for q in [Q::Register(i, vec![(2, 3), (4, 6)], 30), Q::Store(i, 0, 7, 40), Q::Token(i, 1, 40)] {
                    same("preparation", &now("preparation", e.ask(&q)).await??, &p.apply(&e, &q))?;
                }
            }
            let mut shaky = [false; 3];
            let mut failed = false;
            let last: Vec<(Q, Option<F20>)> = [Q::Visit(0), Q::Store(2, 2, 5, 50), Q::Fetch(2, 2), Q::Visitors(1), Q::CVisit(1)]
                .into_iter()
                .map(|q| (q, None))
                .collect();
            let mut unsupported = c.unsupported;
            for (i, (q, f)) in c.ops.iter().chain(last.iter()).enumerate() {
                let what = format!("op {i} {q:?} with {f:?}");
                for (_, k) in c.pings.iter().filter(|p| p.0 as usize == i) {
                    if shaky[2] {
                        heal(&e, 2).await?;
                        shaky[2] = false;
                    }
                    e.fake.with(|s| s.fault = Some(Fault::Answer(no_pong(*k), false)));
                    let told = now(&what, e.con.ping()).await?;
                    if e.fake.with(|s| s.fault.take().is_some()) {
                        return Err(format!("before {what}: a ping answered {told} without asking the server"));
                    }
                    if told {
                        return Err(format!("before {what}: the server answered a ping with {:?}, reported as well", no_pong(*k)));
                    }
                    if !now(&what, e.con.ping()).await? {
                        return Err(format!("before {what}: a ping failed although the server is well"));
                    }
                    obs.label("ping");
                    failed = true;
                }
                if shaky[q.over()] {
                    heal(&e, q.over()).await?;
                    shaky[q.over()] = false;
                }
                match f {
                    None => {
                        let want = p.apply(&e, q);
                        let r = now(&what, e.ask(q)).await??;
                        same(&what, &r, &want).map_err(|m| if failed { format!("{m} (after a failure)") } else { m })?;
                        obs.nontrivial |= failed && want.is_some();
                    }
                    Some(F20::Away(n)) => {
                        e.fake.with(|s| s.down = true);
                        e.fake.cut();
                        for _ in 0..*n {
                            let r = timed(&what, e.ask(q)).await??;
                            if r.is_ok() {
                                return Err(format!("{what}: answered {r:?} while there was no server"));
                            }
                        }
                        e.fake.with(|s| s.down = false);
                        obs.label("away");
                        shaky = [true; 3];
                        failed = true;
                    }
                    Some(f) => {
                        let (fault, applied, lost) = match f {
                            F20::Error(k) => (Fault::Answer(errors(*k), false), false, false),
                            // what is done with the reply of a request without a result is up to it
                            F20::Odd(k) if q.unit() => (Fault::Answer(errors(*k), false), false, false),
                            F20::Odd(k) => (Fault::Answer(odd(*k, q.json()), false), false, false),
                            F20::Drop(a) => (Fault::Drop(*a), *a, true),
                            F20::Stall(a) => (Fault::Stall(*a), *a, true),
                            F20::Garbage(k) => (Fault::Answer(garbage(*k), false), false, true),
                            F20::Away(_) => unreachable!(),
                        };
                        e.fake.with(|s| s.fault = Some(fault));
                        let r = if matches!(f, F20::Stall(_)) {
                            // the client's patience is tried once the server has read the request
                            let mut a = Box::pin(e.ask(q));
                            let mut early = None;
                            while early.is_none() && e.fake.with(|s| s.fault.is_some()) {
                                early = within(&mut a, 1).await;
                            }
                            match early {
                                Some(r) => r?,
                                None => timed(&what, a).await??,
                            }
                        } else {
                            now(&what, e.ask(q)).await??
                        };
                        e.fake.release();
                        if e.fake.with(|s| s.fault.take().is_some()) {
                            return Err(format!("{what}: answered {r:?} without asking the server"));
                        }
                        if r.is_ok() {
                            return Err(format!("{what}: the server failed, the answer is {r:?}"));
                        }
                        if applied {
                            p.apply(&e, q);
                        }
                        obs.label(match f {
                            F20::Error(_) => "error-reply",
                            F20::Odd(_) => "odd-reply",
                            F20::Drop(_) => "dropped",
                            F20::Stall(_) => "stalled",
                            _ => "garbage",
                        });
                        shaky[q.over()] |= lost;
                        failed = true;
                    }
                }
                if unsupported && i == c.ops.len() / 2 {
                    unsupported = false;
                    obs.label("unsupported");
                    // snapshots are not offered by the module: an error, whatever its form
                    if let Ok(rx) = now(&what, e.m.send(GetInternalData)).await? {
                        if let Ok(Ok(v)) = now(&what, rx).await? {
                            return Err(format!("{what}: a snapshot {v:?} out of nowhere"));
                        }
                    }
                    let mcaptcha = [("a".to_string(), mcaptcha(&vec![(1, 1)], 1))].into_iter().collect();
                    if let Ok(rx) = now(&what, e.m.send(SetInternalData { mcaptcha })).await? {
                        if let Ok(Ok(v)) = now(&what, rx).await? {
                            return Err(format!("{what}: {v:?} for a restore that the module does not offer"));
                        }
                    }
                }
            }
            Ok(())
        })
    }
}

// ---- P21 ----------------------------------------------------------------------------------------
pub const COMMANDS: &[&str] = &[
    "MCAPTCHA_CACHE.GET",
    "MCAPTCHA_CACHE.ADD_VISITOR",
    "MCAPTCHA_CACHE.DELETE_CAPTCHA",
    "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS",
    "MCAPTCHA_CACHE.RENAME_CAPTCHA",
    "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE",
    "MCAPTCHA_CACHE.DELETE_CHALLENGE",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C21 {
    others: Vec<u8>,
    /// where among them the module is
    at: Option<u8>,
    paths: bool,
    ver: i64,
    missing: Vec<u8>,
    /// a command of the module the library does not use is missing
    extra: bool,
    nil_array: bool,
    entry: u8,
    /// MODULE LIST fails; COMMAND INFO about .0 fails; there is no server
    fail_list: Option<u8>,
    fail_info: Option<(u8, u8)>,
    away: bool,
}
pub struct P21;
const OTHERS: &[&str] = &[
    "search",
    "ReJSON",
    "bf",
    "mcaptcha",
    "cache",
    "MCAPTCHA",
    "timeseries",
    "name",
    // near misses
    "mcaptcha_cache2",
    "mcaptcha_cach",
    "xmcaptcha_cache",
    "MCAPTCHA_CACHE",
    "mcaptcha-cache",
    "mcaptcha_cache ",
    "mcaptcha_cache.get",
    "",
];
impl Prop for P21 {
    type Case = C21;
    const ID: &'static str = "P21";
    const RULE: &'static str = "the module is absent or not the first, a command is missing, or the server fails";
    const QUICK: u32 = 24_000;
    const THOROUGH: u32 = 600_000;
    fn strategy(_t: bool) -> BoxedStrategy<C21> {
        (
            prop_oneof![
                8 => proptest::collection::vec(0..OTHERS.len() as u8, 0..5),
                1 => proptest::collection::vec(0..OTHERS.len() as u8, 5..60),
            ],
            proptest::option::weighted(0.8, any::<proptest::sample::Index>().prop_map(|i| i.index(61) as u8)),
            any::<bool>(),
            prop_oneof![Just(1i64), 0..1_000_000i64],
            prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(0..9u8, 1..3)],
            any::<bool>(),
            any::<bool>(),
            0..3u8,
            proptest::option::weighted(0.1, 0..9u8),
            proptest::option::weighted(0.1, (0..9u8, 0..7u8)),
            proptest::bool::weighted(0.02),
        )
            .prop_map(|(others, at, paths, ver, missing, extra, nil_array, entry, fail_list, fail_info, away)| C21 {
                others,
                at,
                paths,
                ver,
                missing,
                extra,
                nil_array,
                entry,
                fail_list,
                fail_info,
                away,
            })
            .boxed()
    }
    fn run(c: &C21, obs: &mut Obs) -> R {
        run(async {
            let fake = Fake::start();
            let mut list: Vec<&str> = c.others.iter().map(|i| OTHERS[*i as usize % OTHERS.len()]).collect();
            let mut first = true;
            if let Some(p) = c.at {
                let p = p as usize % (list.len() + 1);
                first = p == 0;
                list.insert(p, "mcaptcha_cache");
            }
            let missing: BTreeSet<&str> = c.missing.iter().map(|i| COMMANDS[*i as usize % COMMANDS.len()]).collect();
            let list_fault = c.fail_list.map(|k| match k {
                0..=3 => Fault::Answer(errors([0, 4, 2, 3][k as usize]), false),
                4 => Fault::Answer(Reply::Nil, false),
                5 => Fault::Answer(ok(), false),
                6 => Fault::Answer(Reply::Array(vec![Reply::Nil]), false),
                7 => Fault::Answer(Reply::Int(1), false),
                _ => Fault::Drop(false),
            });
            let info_fault = c.fail_info.map(|(i, k)| {
                (
                    COMMANDS[i as usize % COMMANDS.len()].to_string(),
                    match k {
                        0..=1 => Fault::Answer(errors([0, 4][k as usize]), false),
                        2 => Fault::Answer(Reply::Nil, false),
                        3 => Fault::Answer(ok(), false),
                        4 => Fault::Answer(Reply::Array(vec![]), false),
                        5 => Fault::Answer(Reply::Int(1), false),
                        _ => Fault::Drop(false),
                    },
                )
            });
            let faulty = list_fault.is_some() || info_fault.is_some();
            fake.with(|s| {
                s.down = c.away;
                s.intro = Intro {
                    modules: Reply::Array(
                        list.iter()
                            .map(|n| module_entry(n, c.ver, c.paths.then(|| format!("/usr/lib/{n}.so")).as_deref()))
                            .collect(),
                    ),
                    modules_fault: list_fault,
                    missing: missing.iter().map(|s| s.to_string()).chain(c.extra.then(|| "MCAPTCHA_CACHE.OTHER".into())).collect(),
                    missing_reply: if c.nil_array { Reply::Raw(b"*-1\r\n".to_vec()) } else { Reply::Nil },
                    command_fault: info_fault,
                }
            });
            let cfg = RedisConfig::Single(fake.url());
            let what = format!("connecting to a server with modules {list:?} lacking {missing:?}");
            let f = async {
                match c.entry {
                    0 => MCaptchaRedis::new(cfg).await.map(Some),
                    1 => RedisCache::new(cfg).await.map(|_| None),
                    _ => RMaster::new(cfg).await.map(|m| Some(m.redis)),
                }
            };
            let r = if c.away { timed(&what, f).await? } else { now(&what, f).await? };
            obs.nontrivial = c.at.is_none() || !first || !missing.is_empty() || faulty || c.away;
            let shown = r.as_ref().map(|_| "connected").map_err(|e| format!("{e:?}"));
            let bad = |w: &str| Err(format!("{what}: {shown:?}, expected {w}"));
            if c.away {
                obs.label("away");
                return if r.is_ok() { bad("an error: there is no server") } else { Ok(()) };
            }
            if faulty {
                obs.label("failing");
                // a fault about a command that is not reached any more, or is missing as well, is not met
                return if r.is_ok() { bad("an error: the server failed") } else { Ok(()) };
            }
            if c.at.is_none() {
                obs.label("no-module");
                return match r {
                    Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded) => Ok(()),
                    _ => bad("module not loaded"),
                };
            }
            if !missing.is_empty() {
                obs.label("missing-command");
                return match r {
                    Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(ref x)) if missing.contains(x.as_str()) => Ok(()),
                    _ => bad("a missing command's name"),
                };
            }
            obs.label(if first { "accepted-first" } else { "accepted-later" });
            match r {
                Err(_) => bad("a connection"),
                Ok(None) => Ok(()),
                Ok(Some(m)) => {
                    if !now(&what, m.get_client().ping()).await? {
                        return bad("an answer to a ping");
                    }
                    Ok(())
                }
            }
        })
    }
}
