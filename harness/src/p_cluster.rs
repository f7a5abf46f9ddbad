//! P27: the Redis-backed cache, manager and connection on a cluster (fake.rs with several nodes).
use crate::core::{Obs, Prop, R};
use crate::fake::*;
use crate::p_redis::{now, pools, requests, run, same, Promise, RedisEnv, A, COMMANDS, Q};
use crate::p_system::{judge, make_work, token_shape, Kind};
use crate::vt::busy;
use libmcaptcha::cache::messages::VerifyCaptchaResult;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::pow::ConfigBuilder;
use libmcaptcha::redis::mcaptcha_redis::MCaptchaRedis;
use libmcaptcha::redis::RedisConfig;
use libmcaptcha::system::{System, SystemBuilder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O27 {
    Ask(Q),
    /// challenge, work, token, token again
    Serve(u8, Kind),
    Pass(u64),
    /// the range of slots belongs to that node from now on
    Reassign(u8, u8),
    /// it is being handed over; the handing over ends
    Hand(u8, u8),
    Handed(u8),
    Cut(u8),
    Down(u8),
    Up(u8),
    /// the next request is answered with an error; the flag: it takes effect
    Refuse(bool),
    Ping,
    /// connect anew; the module is missing, a command is missing
    Connect(bool, Option<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C27 {
    nodes: u8,
    ranges: u8,
    /// URLs that lead nowhere, before and after the nodes
    dead: (u8, u8),
    /// the node to begin with, how many are named
    named: (u8, u8),
    sites: Vec<String>,
    strings: Vec<String>,
    ops: Vec<O27>,
}
pub struct P27;

struct World {
    e: RedisEnv,
    cfg: RedisConfig,
    p: Promise,
    /// a connection was cut or a node away at some time
    shaky: bool,
    /// the client repeated a request when a connection failed: what it did in the end is left open
    open: bool,
}
impl World {
    /// a request is answered right if the nodes it needs are there
    async fn ask(&mut self, what: &str, q: &Q, obs: &mut Obs) -> R {
        let (before, redirected, refused, away) = self.e.fake.with(|s| {
            let t = s.topo.as_ref().unwrap();
            let refused = s.fault.as_ref().map(|f| matches!(f, Fault::Answer(_, true)));
            (s.served.len(), t.redirected, refused, t.down.iter().any(|d| *d))
        });
        let r = now(what, self.e.ask(q)).await??;
        let (served, moved, node_away) = self.e.fake.with(|s| {
            let t = s.topo.as_ref().unwrap();
            let served = s.served[before..].to_vec();
            let away = served.is_empty() && away;
            (served, t.redirected > redirected, away)
        });
        let failed = matches!(r, Err(_) | Ok(A::Nothing));
        if moved {
            obs.label("redirected");
        }
        match served.len() {
            0 if node_away || (moved && self.shaky) => {
                // nobody can serve it, or the client could not find out who does
                obs.label("unserved");
                return if failed { Ok(()) } else { Err(format!("{what}: answered {r:?} although no node served it")) };
            }
            0 => return Err(format!("{what}: answered {r:?}, no node was asked to serve it although all are there")),
            1 => (),
            _ => {
                // the client asks again when a connection fails
                if !self.shaky {
                    return Err(format!("{what}: served {} times: {served:?}", served.len()));
                }
                self.open = true;
                return Ok(());
            }
        }
        match refused {
            None => {
                let w = self.p.apply(&self.e, q);
                same(what, &r, &w)?;
                obs.label("served");
                obs.nontrivial |= moved;
            }
            Some(applied) => {
                if applied {
                    self.p.apply(&self.e, q);
                }
                obs.label("refused");
                if !failed {
                    return Err(format!("{what}: answered {r:?} although the server refused it"));
                }
            }
        }
        Ok(())
    }
    fn all_up(&self) -> bool {
        self.e.fake.with(|s| s.topo.as_ref().unwrap().down.iter().all(|d| !d))
    }
}

impl Prop for P27 {
    type Case = C27;
    const ID: &'static str = "P27";
    const RULE: &'static str = "a request is redirected to another node and served there";
    const QUICK: u32 = 12_000;
    const THOROUGH: u32 = 300_000;
    fn strategy(_t: bool) -> BoxedStrategy<C27> {
        let b = any::<u8>;
        let op = prop_oneof![
            16 => requests(4, 5).prop_map(O27::Ask),
            2 => (b(), prop_oneof![3 => Just(Kind::Good), 1 => Just(Kind::Weak), 1 => Just(Kind::WrongSite)]).prop_map(|(a, k)| O27::Serve(a, k)),
            2 => prop_oneof![0..3000u64, 0..25_000u64].prop_map(O27::Pass),
            3 => (b(), b()).prop_map(|(r, n)| O27::Reassign(r, n)),
            1 => (b(), b()).prop_map(|(r, n)| O27::Hand(r, n)),
            1 => b().prop_map(O27::Handed),
            1 => b().prop_map(O27::Cut),
            1 => b().prop_map(O27::Down),
            2 => b().prop_map(O27::Up),
            1 => any::<bool>().prop_map(O27::Refuse),
            1 => Just(O27::Ping),
            1 => (proptest::bool::weighted(0.2), proptest::option::weighted(0.3, 0..9u8)).prop_map(|(a, b)| O27::Connect(a, b)),
        ];
        // with failing nodes some answers are left open, so half of the histories have none
        let calm = any::<bool>();
        (1..=MAX_NODES as u8, 1..9u8, (0..3u8, 0..2u8), (b(), 1..5u8), pools(), proptest::collection::vec(op, 1..30), calm)
            .prop_map(|(nodes, ranges, dead, named, (sites, strings), mut ops, calm)| {
                if calm {
                    ops.retain(|o| !matches!(o, O27::Cut(_) | O27::Down(_) | O27::Up(_)));
                }
                C27 { nodes, ranges, dead, named, sites, strings, ops }
            })
            .boxed()
    }
    fn run(c: &C27, obs: &mut Obs) -> R {
        run(async {
            let nodes = c.nodes as usize;
            let ranges = (c.ranges as usize).max(nodes);
            let fake = Fake::cluster(nodes, ranges);
            // nobody listens at port 1
            let dead = |n: u8| (0..n).map(|_| "redis://127.0.0.1:1".to_string());
            let named = (0..(c.named.1 as usize).min(nodes)).map(|i| fake.node_url((c.named.0 as usize + i) % nodes));
            let cfg = RedisConfig::Cluster(dead(c.dead.0).chain(named).chain(dead(c.dead.1)).collect());
            let e = RedisEnv::over(fake, cfg.clone(), &c.sites, &c.strings).await?;
            let sys: System<RedisCache, RMaster> = SystemBuilder::default()
                .master(e.m.clone())
                .cache(e.cache.clone())
                .pow(ConfigBuilder::default().salt("salt".to_string()).build().unwrap())
                .runners(1)
                .queue_length(100)
                .build();
            let mut w = World { e, cfg, p: Promise::default(), shaky: false, open: false };
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?} (sites {:?}, strings {:?})", c.sites, c.strings);
                match op {
                    O27::Ask(q) => {
                        w.ask(&what, q, obs).await?;
                        if w.open {
                            obs.label("left-open");
                            return Ok(());
                        }
                    }
                    O27::Pass(ms) => {
                        w.e.fake.pass(*ms);
                        w.p.pass(*ms);
                    }
                    O27::Reassign(r, n) => w.e.fake.with(|s| {
                        let t = s.topo.as_mut().unwrap();
                        let r = *r as usize % ranges;
                        t.owner[r] = *n % nodes as u8;
                        t.moving.remove(&r);
                    }),
                    O27::Hand(r, n) => w.e.fake.with(|s| {
                        let t = s.topo.as_mut().unwrap();
                        let (r, n) = (*r as usize % ranges, *n % nodes as u8);
                        if t.owner[r] != n {
                            t.moving.insert(r, n);
                            obs.label("handing-over");
                        }
                    }),
                    O27::Handed(r) => w.e.fake.with(|s| {
                        let t = s.topo.as_mut().unwrap();
                        let r = *r as usize % ranges;
                        if let Some(n) = t.moving.remove(&r) {
                            t.owner[r] = n;
                        }
                    }),
                    O27::Cut(n) => {
                        w.e.fake.cut_node(*n as usize % nodes);
                        w.shaky = true;
                    }
                    O27::Down(n) => {
                        let n = *n as usize % nodes;
                        w.e.fake.with(|s| s.topo.as_mut().unwrap().down[n] = true);
                        w.e.fake.cut_node(n);
                        w.shaky = true;
                        obs.label("outage");
                    }
                    O27::Up(n) => w.e.fake.with(|s| s.topo.as_mut().unwrap().down[*n as usize % nodes] = false),
                    O27::Refuse(applied) => {
                        w.e.fake.with(|s| s.fault = Some(Fault::Answer(err("busy"), *applied)));
                    }
                    O27::Ping => {
                        let r = now(&what, w.e.con.ping()).await?;
                        if !r && !w.shaky {
                            return Err(format!("{what}: not answered although all nodes are there"));
                        }
                    }
                    O27::Connect(without, missing) => {
                        let missing = missing.map(|m| COMMANDS[m as usize % COMMANDS.len()]);
                        w.e.fake.with(|s| {
                            if *without {
                                s.intro.modules = Reply::Array(vec![module_entry("search", 1, None)]);
                            }
                            s.intro.missing = missing.iter().map(|m| m.to_string()).collect();
                        });
                        let r = now(&what, MCaptchaRedis::new(w.cfg.clone())).await?;
                        w.e.fake.with(|s| s.intro = Intro::default());
                        let ok = match &r {
                            // a node that is away may be the only one named
                            Err(_) if !w.all_up() => true,
                            Ok(_) => !without && missing.is_none(),
                            Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded) => *without,
                            Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(m)) => !without && Some(m.as_str()) == missing,
                            Err(_) => false,
                        };
                        if !ok {
                            return Err(format!("{what}: {:?}", r.map(|_| "connected")));
                        }
                        obs.label(if r.is_ok() { "connected-anew" } else { "connection-refused" });
                    }
                    O27::Serve(s, kind) => {
                        if w.shaky || w.e.fake.with(|s| s.fault.is_some()) {
                            continue;
                        }
                        let site = w.e.site(*s);
                        let known = w.p.module.exists(site.as_bytes());
                        let r = now(&what, sys.get_pow(site.clone())).await?.map_err(|x| format!("{what}: {x:?}"))?;
                        let Some(pow) = r else {
                            if known {
                                return Err(format!("{what}: no challenge for a registered site"));
                            }
                            continue;
                        };
                        token_shape("challenge", &pow.string)?;
                        let Some((f, d)) = w.p.module.add_visitor(site.as_bytes()) else {
                            return Err(format!("{what}: a challenge for a site that is not registered"));
                        };
                        if pow.difficulty_factor != f {
                            return Err(format!("{what}: {pow:?}, the site's difficulty is {f}"));
                        }
                        if f > 5000 {
                            // takes too long to solve
                            w.p.module.add_challenge(site.as_bytes(), pow.string.as_bytes(), f, d);
                            continue;
                        }
                        let other = c.sites.iter().find(|s| **s != site).cloned();
                        let kind = if other.is_none() && *kind == Kind::WrongSite { Kind::Good } else { *kind };
                        let (work, want) = make_work("salt", &pow.string, &site, &other.unwrap_or_default(), f, kind);
                        let r = now(&what, busy(sys.verify_pow(work, "ip".into()))).await?;
                        if kind == Kind::WrongSite {
                            // unknown under that site; not used up
                            if r.is_ok() {
                                return Err(format!("{what}: answered {r:?}"));
                            }
                            w.p.module.add_challenge(site.as_bytes(), pow.string.as_bytes(), f, d);
                            continue;
                        }
                        judge(&what, &r, want, f)?;
                        if let Ok((token, _)) = r {
                            for want in [true, false] {
                                let v = VerifyCaptchaResult { token: token.clone(), key: site.clone() };
                                let got = now(&what, sys.validate_verification_tokens(v)).await?.map_err(|x| format!("{what}: {x:?}"))?;
                                if got != want {
                                    return Err(format!("{what}: the token was answered {got}"));
                                }
                            }
                            obs.label("served-whole");
                        }
                    }
                }
            }
            // nothing else was done to the server
            if w.e.fake.with(|s| (s.module.sites != w.p.module.sites) || (s.module.chals != w.p.module.chals)) {
                return Err("the sites or challenges kept in the cluster are not those the requests lead to".into());
            }
            Ok(())
        })
    }
}
