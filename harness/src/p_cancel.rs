//! P22: requests abandoned at any point, dropped or kept and never polled again.
use crate::core::{in_lib, Obs, Prop, R};
use crate::fake::Fake;
use crate::p_redis::{now, real, run};
use crate::p_system::{good_work, make_work, Kind};
use crate::gen::mcaptcha;
use actix::prelude::*;
use libmcaptcha::cache::messages::VerifyCaptchaResult;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::errors::CaptchaResult;
use libmcaptcha::master::embedded::master::Master as EMaster;
use libmcaptcha::master::messages::AddSite;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::pow::{ConfigBuilder, PoWConfig, Work};
use libmcaptcha::redis::RedisConfig;
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::HashCache;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum W {
    Good,
    Weak,
    Forged,
    WrongSite,
    /// neither sufficient nor a proof
    Null,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Req {
    Challenge(u8),
    /// challenge (counted back from the newest), what is submitted, address
    Verify(u8, W, u8),
    /// token
    Present(u8),
}
/// what happens between two polls
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Gap {
    Yields(u8),
    Real,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O22 {
    Go(Req),
    /// poll it that often, the gap after each poll, then leave it
    Begin(Req, Vec<Gap>),
    /// drop one that was left
    Drop(u8),
    /// go on with one that was left
    Resume(u8),
    /// several from the start to the end at once
    Together(Vec<Req>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C22 {
    redis: bool,
    runners: u8,
    ops: Vec<O22>,
    /// shortly after this many operations everything from before expires; at the end, what is left is looked at
    /// only then
    late: Option<u8>,
}
pub struct P22;

type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
enum Svc {
    Mem(Rc<System<HashCache, EMaster>>),
    Red(Rc<System<RedisCache, RMaster>>, #[allow(dead_code)] Fake),
}
#[derive(Debug)]
enum Out {
    Challenge(CaptchaResult<Option<PoWConfig>>),
    Verify(CaptchaResult<(String, u32)>),
    Present(CaptchaResult<bool>),
}
macro_rules! on {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            Svc::Mem($s) => {
                let $s = $s.clone();
                Box::pin(async move { $e }) as Fut<Out>
            }
            Svc::Red($s, _) => {
                let $s = $s.clone();
                Box::pin(async move { $e }) as Fut<Out>
            }
        }
    };
}
impl Svc {
    fn challenge(&self, site: String) -> Fut<Out> {
        on!(self, s => Out::Challenge(s.get_pow(site).await))
    }
    fn verify(&self, w: Work, ip: String) -> Fut<Out> {
        on!(self, s => Out::Verify(s.verify_pow(w, ip).await))
    }
    fn present(&self, token: String, key: String) -> Fut<Out> {
        on!(self, s => Out::Present(s.validate_verification_tokens(VerifyCaptchaResult { token, key }).await))
    }
}
/// polls under the watchdog's eyes
struct InLib<'a>(&'a mut Fut<Out>);
impl Future for InLib<'_> {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        in_lib(|| self.0.as_mut().poll(cx))
    }
}

struct Chal {
    site: u8,
    string: String,
    f: u32,
    /// a request that may have consumed it was begun
    maybe: bool,
    used: bool,
    granted: u32,
}
struct Tok {
    site: u8,
    token: String,
    maybe: bool,
    used: bool,
    confirmed: u32,
}
enum About {
    Challenge(u8),
    Verify(usize, W),
    Present(usize),
}
struct Left {
    fut: Fut<Out>,
    about: About,
}
fn site(i: u8) -> String {
    format!("site{}", i % 2)
}
const F: [u32; 2] = [3, 5];
/// seconds
const LIFE: u64 = 1_000_000;

struct World {
    svc: Svc,
    chals: Vec<Chal>,
    toks: Vec<Tok>,
    left: Vec<Left>,
}
impl World {
    fn start(&self, r: &Req) -> Option<Left> {
        Some(match r {
            Req::Challenge(s) => Left { fut: self.svc.challenge(site(*s)), about: About::Challenge(*s % 2) },
            Req::Verify(k, w, ip) => {
                let n = self.chals.len();
                if n == 0 {
                    return None;
                }
                let i = n - 1 - *k as usize % n;
                let c = &self.chals[i];
                let (own, other) = (site(c.site), site(c.site + 1));
                let work = match w {
                    W::Good => make_work("salt", &c.string, &own, &other, c.f, Kind::Good).0,
                    W::Weak => make_work("salt", &c.string, &own, &other, c.f, Kind::Weak).0,
                    W::Forged => make_work("salt", &c.string, &own, &other, c.f, Kind::Forged).0,
                    W::WrongSite => make_work("salt", &c.string, &own, &other, c.f, Kind::WrongSite).0,
                    W::Null => Work { string: c.string.clone(), result: "0".into(), nonce: 0, key: own },
                };
                Left { fut: self.svc.verify(work, format!("ip{ip}")), about: About::Verify(i, *w) }
            }
            Req::Present(k) => {
                let n = self.toks.len();
                if n == 0 {
                    return None;
                }
                let i = n - 1 - *k as usize % n;
                let t = &self.toks[i];
                Left { fut: self.svc.present(t.token.clone(), site(t.site)), about: About::Present(i) }
            }
        })
    }
    /// a request was begun: what it is about is uncertain from here on
    fn begun(&mut self, a: &About) {
        match a {
            About::Verify(i, w) if *w != W::WrongSite || matches!(self.svc, Svc::Mem(_)) => self.chals[*i].maybe = true,
            About::Present(i) => self.toks[*i].maybe = true,
            _ => (),
        }
    }
    /// `sure`: nothing else was or is under way about the same thing since it was untouched
    fn done(&mut self, what: &str, a: &About, o: Out, sure: bool) -> R {
        match (a, o) {
            (About::Challenge(s), Out::Challenge(Ok(Some(p)))) => {
                if p.difficulty_factor != F[*s as usize] || p.salt != "salt" || self.chals.iter().any(|c| c.string == p.string) {
                    return Err(format!("{what}: challenge {p:?}"));
                }
                self.chals.push(Chal { site: *s, string: p.string, f: p.difficulty_factor, maybe: false, used: false, granted: 0 });
                Ok(())
            }
            (About::Verify(i, w), Out::Verify(r)) => {
                let c = &mut self.chals[*i];
                let consumes = *w != W::WrongSite || matches!(self.svc, Svc::Mem(_));
                let used = c.used;
                c.used |= consumes;
                let ok = match (&r, w) {
                    (Ok((_, f)), W::Good) => *f == c.f && (!used || c.maybe),
                    (Ok(_), _) => false,
                    (Err(_), W::Good) => used || !sure,
                    (Err(_), _) => true,
                };
                if let Ok((t, _)) = &r {
                    c.granted += 1;
                    if c.granted > 1 || self.toks.iter().any(|x| x.token == *t) {
                        return Err(format!("{what}: challenge granted {} times, token {t}", c.granted));
                    }
                    self.toks.push(Tok { site: c.site, token: t.clone(), maybe: false, used: false, confirmed: 0 });
                }
                if !ok {
                    return Err(format!(
                        "{what}: answered {r:?} (challenge used before: {used}, other requests about it begun: {})", !sure
                    ));
                }
                Ok(())
            }
            (About::Present(i), Out::Present(Ok(b))) => {
                let t = &mut self.toks[*i];
                let used = t.used;
                t.used = true;
                if b {
                    t.confirmed += 1;
                }
                if t.confirmed > 1 || (b && used && !t.maybe) || (!b && !used && sure) {
                    return Err(format!(
                        "{what}: answered {b} (confirmed before: {used}, other requests about it begun: {})", !sure
                    ));
                }
                Ok(())
            }
            (_, o) => Err(format!("{what}: answered {o:?}")),
        }
    }
    async fn pass(&self, secs: u64) {
        real(1).await;
        match &self.svc {
            Svc::Red(_, fake) => fake.pass(secs * 1000),
            Svc::Mem(_) => tokio::time::advance(Duration::from_secs(secs)).await,
        }
        real(1).await;
    }
    fn untouched(&self, a: &About) -> bool {
        match a {
            About::Challenge(_) => true,
            About::Verify(i, _) => !self.chals[*i].maybe,
            About::Present(i) => !self.toks[*i].maybe,
        }
    }
    async fn go(&mut self, what: &str, mut l: Left) -> R {
        let sure = self.untouched(&l.about);
        // how a request that runs to its end leaves it is known; a challenge shown for the wrong site stays in Redis
        let o = now(what, InLib(&mut l.fut)).await?;
        let a = l.about;
        self.done(what, &a, o, sure)
    }
}

impl Prop for P22 {
    type Case = C22;
    const ID: &'static str = "P22";
    const RULE: &'static str = "a request is left unfinished, and another of the same kind is made afterwards";
    const QUICK: u32 = 15_000;
    const THOROUGH: u32 = 400_000;
    fn strategy(_t: bool) -> BoxedStrategy<C22> {
        let w = || prop_oneof![4 => Just(W::Good), 1 => Just(W::Weak), 1 => Just(W::Forged), 1 => Just(W::WrongSite), 2 => Just(W::Null)];
        let req = move || {
            prop_oneof![
                3 => (0..2u8).prop_map(Req::Challenge),
                4 => (0..4u8, w(), 0..2u8).prop_map(|(a, b, c)| Req::Verify(a, b, c)),
                2 => (0..3u8).prop_map(Req::Present),
            ]
        };
        let gap = || prop_oneof![2 => (0..6u8).prop_map(Gap::Yields), 1 => Just(Gap::Real)];
        let op = prop_oneof![
            6 => req().prop_map(O22::Go),
            6 => (req(), proptest::collection::vec(gap(), 0..6)).prop_map(|(a, b)| O22::Begin(a, b)),
            2 => any::<u8>().prop_map(O22::Drop),
            2 => any::<u8>().prop_map(O22::Resume),
            1 => proptest::collection::vec(req(), 2..5).prop_map(O22::Together),
        ];
        (any::<bool>(), 1..3u8, proptest::collection::vec(op, 1..20), proptest::option::weighted(0.35, 0..20u8))
            .prop_map(|(redis, runners, ops, late)| C22 { redis, runners, ops, late })
            .boxed()
    }
    fn run(c: &C22, obs: &mut Obs) -> R {
        run(async {
            let pow = || ConfigBuilder::default().salt("salt".to_string()).build().unwrap();
            let sites = |i: usize| AddSite { id: site(i as u8), mcaptcha: mcaptcha(&vec![(1_000_000, F[i])], LIFE) };
            let svc = if c.redis {
                let fake = Fake::start();
                let cfg = RedisConfig::Single(fake.url());
                let m = now("connect", RMaster::new(cfg.clone())).await?.map_err(|e| format!("connect: {e:?}"))?.start();
                let cache = now("connect", RedisCache::new(cfg)).await?.map_err(|e| format!("connect: {e:?}"))?.start();
                for i in 0..2 {
                    let rx = now("register", m.send(sites(i))).await?.map_err(|e| e.to_string())?;
                    now("register", rx).await?.map_err(|e| e.to_string())?.map_err(|e| format!("register: {e:?}"))?;
                }
                let b = SystemBuilder::default().master(m).cache(cache);
                Svc::Red(Rc::new(b.pow(pow()).runners(c.runners as usize).queue_length(1000).build()), fake)
            } else {
                let m = EMaster::new(1_000_000).start();
                for i in 0..2 {
                    let rx = now("register", m.send(sites(i))).await?.map_err(|e| e.to_string())?;
                    now("register", rx).await?.map_err(|e| e.to_string())?.map_err(|e| format!("register: {e:?}"))?;
                }
                let b = SystemBuilder::default().master(m).cache(HashCache::default().start());
                Svc::Mem(Rc::new(b.pow(pow()).runners(c.runners as usize).queue_length(1000).build()))
            };
            obs.label(if c.redis { "redis" } else { "memory" });
            let mut w = World { svc, chals: vec![], toks: vec![], left: vec![] };
            let (mut left_verify, mut left_other) = (false, false);
            // something to work with
            for s in 0..2u8 {
                let l = w.start(&Req::Challenge(s)).unwrap();
                w.go("first challenge", l).await?;
            }
            let (mut old_toks, mut old_chals) = (None, None);
            let switch = c.late.map(|k| k as usize % c.ops.len());
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?}");
                if switch == Some(i) {
                    w.pass(LIFE - 5).await;
                    old_toks = Some(w.toks.len());
                    old_chals = Some(w.chals.len());
                }
                match op {
                    O22::Go(r) => {
                        let Some(l) = w.start(r) else { continue };
                        obs.nontrivial |= if matches!(r, Req::Verify(..)) { left_verify } else { left_other };
                        w.go(&what, l).await?;
                    }
                    O22::Begin(r, gaps) => {
                        let Some(mut l) = w.start(r) else { continue };
                        let sure = w.untouched(&l.about);
                        let mut out = None;
                        for g in gaps {
                            let waker = futures_util::task::noop_waker();
                            if let Poll::Ready(o) = in_lib(|| l.fut.as_mut().poll(&mut Context::from_waker(&waker))) {
                                out = Some(o);
                                break;
                            }
                            match g {
                                Gap::Yields(n) => {
                                    for _ in 0..*n {
                                        tokio::task::yield_now().await;
                                    }
                                }
                                Gap::Real => real(1).await,
                            }
                        }
                        match out {
                            Some(o) => {
                                obs.label("finished-by-itself");
                                w.done(&what, &l.about, o, sure)?
                            }
                            None => {
                                if !gaps.is_empty() {
                                    obs.label(match r {
                                        Req::Challenge(_) => "left-challenge",
                                        Req::Verify(..) => "left-verify",
                                        Req::Present(_) => "left-token",
                                    });
                                    left_verify |= matches!(r, Req::Verify(..));
                                    left_other |= !matches!(r, Req::Verify(..));
                                }
                                w.begun(&l.about);
                                w.left.push(l)
                            }
                        }
                    }
                    O22::Drop(k) => {
                        if !w.left.is_empty() {
                            let k = *k as usize % w.left.len();
                            drop(w.left.swap_remove(k));
                            obs.label("dropped");
                        }
                    }
                    O22::Resume(k) => {
                        if !w.left.is_empty() {
                            let k = *k as usize % w.left.len();
                            let mut l = w.left.swap_remove(k);
                            let o = now(&what, InLib(&mut l.fut)).await?;
                            w.done(&what, &l.about, o, false)?;
                            obs.label("resumed");
                        }
                    }
                    O22::Together(v) => {
                        let mut ls: Vec<Left> = v.iter().filter_map(|r| w.start(r)).collect();
                        let sure: Vec<bool> = ls
                            .iter()
                            .map(|l| {
                                let n = ls.iter().filter(|m| match (&l.about, &m.about) {
                                    (About::Verify(a, _), About::Verify(b, _)) | (About::Present(a), About::Present(b)) => a == b,
                                    _ => false,
                                });
                                w.untouched(&l.about) && n.count() <= 1
                            })
                            .collect();
                        let before: Vec<u32> = w.chals.iter().map(|c| c.granted).collect();
                        // the same thing asked for several times at once: which of them comes first is open
                        let used: Vec<bool> = w.chals.iter().map(|c| c.used).collect();
                        let tused: Vec<bool> = w.toks.iter().map(|c| c.used).collect();
                        let os = now(&what, futures_util::future::join_all(ls.iter_mut().map(|l| InLib(&mut l.fut)))).await?;
                        for ((l, o), s) in ls.iter().zip(os).zip(sure) {
                            if !s {
                                match &l.about {
                                    About::Verify(i, _) => w.chals[*i].used = used[*i],
                                    About::Present(i) => w.toks[*i].used = tused[*i],
                                    _ => (),
                                }
                            }
                            w.done(&what, &l.about, o, s)?;
                        }
                        for l in &ls {
                            match &l.about {
                                About::Verify(i, k) => w.chals[*i].used |= *k != W::WrongSite || !c.redis,
                                About::Present(i) => w.toks[*i].used = true,
                                _ => (),
                            }
                        }
                        // among good ones only, exactly one is granted
                        for (i, b) in before.iter().enumerate() {
                            let about: Vec<_> = ls
                                .iter()
                                .filter_map(|l| match &l.about {
                                    About::Verify(j, w) if *j == i => Some(*w),
                                    _ => None,
                                })
                                .collect();
                            if about.len() > 1 && about.iter().all(|x| *x == W::Good) && !used[i] && !w.chals[i].maybe && w.chals[i].granted != b + 1 {
                                return Err(format!("{what}: nobody got a token for challenge {i}"));
                            }
                        }
                        obs.label("together");
                    }
                }
            }
            // with everything that was left still there: fresh challenges, tokens, and untouched old ones
            let old: Vec<usize> = (0..w.chals.len()).filter(|i| !w.chals[*i].used && !w.chals[*i].maybe).collect();
            for s in 0..2u8 {
                let what = "a challenge at the end";
                let l = w.start(&Req::Challenge(s)).unwrap();
                w.go(what, l).await?;
            }
            let n = w.chals.len();
            for i in old.into_iter().take(3).chain(n - 2..n) {
                let c = &w.chals[i];
                let work = good_work("salt", &c.string, &site(c.site), c.f);
                let l = Left { fut: w.svc.verify(work.clone(), "ip".into()), about: About::Verify(i, W::Good) };
                w.go(&format!("challenge {i} submitted at the end"), l).await?;
                let l = Left { fut: w.svc.verify(work, "ip".into()), about: About::Verify(i, W::Good) };
                w.go(&format!("challenge {i} submitted again at the end"), l).await?;
                if w.chals[i].granted != 1 {
                    return Err(format!("challenge {i} was granted {} times at the end", w.chals[i].granted));
                }
            }
            if c.late.is_some() {
                // no request, abandoned or not, keeps anything beyond its time
                obs.label("late");
                real(1).await;
                w.pass(10).await;
                for i in 0..old_toks.unwrap_or(w.toks.len()) {
                    let t = &w.toks[i];
                    let mut f = w.svc.present(t.token.clone(), site(t.site));
                    match now("a late presentation", InLib(&mut f)).await? {
                        Out::Present(Ok(false)) => (),
                        o => return Err(format!("token {i}, presented after its time: {o:?} (abandoned requests about it: {})", t.maybe)),
                    }
                }
                for i in 0..old_chals.unwrap_or(w.chals.len()).min(6) {
                    let c = &w.chals[i];
                    let work = good_work("salt", &c.string, &site(c.site), c.f);
                    let mut f = w.svc.verify(work, "ip".into());
                    match now("a late submission", InLib(&mut f)).await? {
                        Out::Verify(Err(_)) => (),
                        o => return Err(format!("challenge {i}, submitted after its time: {o:?} (abandoned requests about it: {})", c.maybe)),
                    }
                }
                w.left.clear();
                return Ok(());
            }
            for i in 0..w.toks.len() {
                for _ in 0..2 {
                    let t = &w.toks[i];
                    let l = Left { fut: w.svc.present(t.token.clone(), site(t.site)), about: About::Present(i) };
                    w.go(&format!("token {i} presented at the end"), l).await?;
                }
            }
            w.left.clear();
            Ok(())
        })
    }
}
