//! P25: the service used by many threads at once, in real time.
use crate::core::{in_lib, Obs, Prop, R};
use crate::gen::mcaptcha;
use crate::p_system::{judge, make_work, token_shape, Kind};
use actix::prelude::*;
use libmcaptcha::cache::messages::VerifyCaptchaResult;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::AddSite;
use libmcaptcha::pow::{ConfigBuilder, Work};
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::HashCache;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum S25 {
    /// a challenge of its own
    Own { site: u8, kind: Kind, ip: u8, present: bool },
    /// one of the challenges all threads know; good work
    Shared { k: u8, ip: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C25 {
    runners: u8,
    shared: u8,
    threads: Vec<Vec<S25>>,
}
pub struct P25;

type Svc = System<HashCache, Master>;
fn site(i: u8) -> String {
    format!("site{}", i % 3)
}
const F: [u32; 3] = [1, 4, 9];

struct Watched<F>(Pin<Box<F>>);
impl<F: Future> Future for Watched<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        in_lib(|| self.0.as_mut().poll(cx))
    }
}
fn wait<F: Future>(rt: &tokio::runtime::Runtime, what: &str, f: F) -> Result<F::Output, String> {
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(100), Watched(Box::pin(f))).await })
        .map_err(|_| format!("{what}: the request was not answered in 100 s"))
}

#[derive(Debug)]
struct Got {
    /// (token, site): not presented yet
    tokens: Vec<(String, u8)>,
    all: Vec<String>,
    /// (shared challenge, token obtained)
    shared: Vec<(usize, bool)>,
}

fn thread(sys: &Svc, script: &[S25], known: &[(u8, String, Work)]) -> Result<Got, String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let mut g = Got { tokens: vec![], all: vec![], shared: vec![] };
    let present = |t: &str, s: u8| -> Result<bool, String> {
        wait(&rt, "token", sys.validate_verification_tokens(VerifyCaptchaResult { token: t.into(), key: site(s) }))?
            .map_err(|e| format!("token: {e:?}"))
    };
    for s in script {
        let what = format!("{s:?}");
        match s {
            S25::Own { site: i, kind, ip, present: now } => {
                let f = F[*i as usize % 3];
                let c = wait(&rt, &what, sys.get_pow(site(*i)))?
                    .map_err(|e| format!("{what}: {e:?}"))?
                    .ok_or(format!("{what}: no challenge"))?;
                token_shape("challenge", &c.string)?;
                if c.difficulty_factor != f {
                    return Err(format!("{what}: {c:?}, the difficulty is {f}"));
                }
                let (w, want) = make_work("salt", &c.string, &site(*i), &site(*i + 1), f, *kind);
                let r = wait(&rt, &what, sys.verify_pow(w, format!("ip{ip}")))?;
                judge(&what, &r, want, f)?;
                if let Ok((t, _)) = r {
                    g.all.push(t.clone());
                    if *now {
                        for want in [true, false] {
                            if present(&t, *i)? != want {
                                return Err(format!("{what}: token presented, answered {}", !want));
                            }
                        }
                    } else {
                        g.tokens.push((t, *i));
                    }
                }
            }
            S25::Shared { k, ip } => {
                if known.is_empty() {
                    continue;
                }
                let k = *k as usize % known.len();
                let (i, _, w) = &known[k];
                let r = wait(&rt, &what, sys.verify_pow(w.clone(), format!("ip{ip}")))?;
                match r {
                    Ok((t, f)) if f == F[*i as usize % 3] => {
                        token_shape("token", &t)?;
                        g.all.push(t.clone());
                        g.tokens.push((t, *i));
                        g.shared.push((k, true));
                    }
                    Err(CaptchaError::StringNotFound) => g.shared.push((k, false)),
                    r => return Err(format!("{what}: answered {r:?}")),
                }
            }
        }
    }
    Ok(g)
}

impl Prop for P25 {
    type Case = C25;
    const ID: &'static str = "P25";
    const RULE: &'static str = "at least two threads submit, and work of different verdicts or one shared challenge is among it";
    const QUICK: u32 = 12_000;
    const THOROUGH: u32 = 300_000;
    fn strategy(t: bool) -> BoxedStrategy<C25> {
        let kind = prop_oneof![4 => Just(Kind::Good), 2 => Just(Kind::Weak), 2 => Just(Kind::Forged), 1 => Just(Kind::WrongSite)];
        let s = prop_oneof![
            3 => (0..3u8, kind, 0..4u8, any::<bool>()).prop_map(|(site, kind, ip, present)| S25::Own { site, kind, ip, present }),
            2 => (0..2u8, 0..4u8).prop_map(|(k, ip)| S25::Shared { k, ip }),
        ];
        let n = if t { 8 } else { 6 };
        (1..=n as u8, 0..3u8, proptest::collection::vec(proptest::collection::vec(s, 1..6), 1..=n))
            .prop_map(|(runners, shared, threads)| C25 { runners, shared, threads })
            .boxed()
    }
    fn run(c: &C25, obs: &mut Obs) -> R {
        // the actors live on a thread of their own
        let (tx, rx) = std::sync::mpsc::channel();
        let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
        let h = std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            tokio::task::LocalSet::new().block_on(&rt, async move {
                let m = Master::new(100_000_000).start();
                for i in 0..3u8 {
                    let r = m.send(AddSite { id: site(i), mcaptcha: mcaptcha(&vec![(1_000_000, F[i as usize])], 1_000_000) }).await;
                    drop(r);
                }
                tx.send((m, HashCache::default().start())).unwrap();
                let _ = stopped.await;
            });
        });
        let (m, cache) = rx.recv().map_err(|_| "the actors did not start")?;
        let sys: Arc<Svc> = Arc::new(
            SystemBuilder::default()
                .master(m)
                .cache(cache)
                .pow(ConfigBuilder::default().salt("salt".to_string()).build().unwrap())
                .runners(c.runners as usize)
                .queue_length(10_000)
                .build(),
        );
        let res = (|| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            let mut known = vec![];
            for k in 0..c.shared {
                let p = wait(&rt, "shared challenge", sys.get_pow(site(k)))?
                    .map_err(|e| format!("shared challenge: {e:?}"))?
                    .ok_or("shared challenge: none")?;
                let (w, _) = make_work("salt", &p.string, &site(k), "", F[k as usize % 3], Kind::Good);
                known.push((k, p.string, w));
            }
            let known = Arc::new(known);
            let gate = Arc::new(Barrier::new(c.threads.len()));
            let hs: Vec<_> = c
                .threads
                .iter()
                .map(|s| {
                    let (sys, s, known, gate) = (sys.clone(), s.clone(), known.clone(), gate.clone());
                    std::thread::spawn(move || {
                        gate.wait();
                        thread(&sys, &s, &known)
                    })
                })
                .collect();
            let gs: Vec<Result<Got, String>> =
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a submitting thread crashed".into()))).collect();
            let mut got = vec![];
            for (i, g) in gs.into_iter().enumerate() {
                got.push(g.map_err(|e| format!("thread {i}: {e}"))?);
            }
            let all: Vec<&String> = got.iter().flat_map(|g| &g.all).collect();
            if all.iter().collect::<BTreeSet<_>>().len() != all.len() {
                return Err(format!("a token was given twice: {all:?}"));
            }
            let mut shared = false;
            for k in 0..known.len() {
                let tries: Vec<bool> = got.iter().flat_map(|g| &g.shared).filter(|x| x.0 == k).map(|x| x.1).collect();
                if !tries.is_empty() && tries.iter().filter(|x| **x).count() != 1 {
                    return Err(format!("challenge {k} known to all was submitted {} times: {tries:?}", tries.len()));
                }
                shared |= tries.len() > 1;
            }
            for (t, s) in got.iter().flat_map(|g| &g.tokens) {
                for want in [true, false] {
                    let r = wait(&rt, "token", sys.validate_verification_tokens(VerifyCaptchaResult { token: t.clone(), key: site(*s) }))?
                        .map_err(|e| format!("token: {e:?}"))?;
                    if r != want {
                        return Err(format!("token {t} of {}: answered {r}, expected {want}", site(*s)));
                    }
                }
            }
            let verdicts = c.threads.iter().flatten().filter(|s| matches!(s, S25::Own { kind: Kind::Good, .. })).count() > 0
                && c.threads.iter().flatten().any(|s| matches!(s, S25::Own { kind: Kind::Weak | Kind::Forged, .. }));
            if shared {
                obs.label("shared-challenge");
            }
            if verdicts {
                obs.label("mixed-verdicts");
            }
            obs.count("submissions", c.threads.iter().map(|t| t.len() as u64).sum());
            obs.nontrivial = c.threads.len() > 1 && (shared || verdicts);
            Ok(())
        })();
        in_lib(|| drop(sys));
        let _ = stop.send(());
        let _ = h.join();
        res
    }
}
