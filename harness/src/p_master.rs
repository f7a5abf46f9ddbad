//! P08-P12: the in-memory site manager under virtual time.
use crate::core::{Obs, Prop, R};
use crate::gen::*;
use crate::vt::{self, ask, pass, settle, Clock};
use actix::prelude::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::counter::{self, Counter};
use libmcaptcha::master::embedded::master::{CleanUp, GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::{AddVisitorResult, MCaptcha};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const NEVER: u64 = 30_000_000; // seconds; a collection period no case reaches
/// distance kept between an operation and a timer, in ms
const SLACK: u64 = 3;

pub type M = Addr<Master>;

pub async fn visit(m: &M, id: &str) -> Result<Result<Option<AddVisitorResult>, CaptchaError>, String> {
    let rx = ask("visit", m.send(AddVisitor(id.into()))).await?.map_err(|e| format!("visit: site manager: {e}"))?;
    Ok(match ask("visit", rx).await? {
        Ok(r) => r,
        Err(_) => return Err("visit: the reply was dropped".into()),
    })
}
async fn unit<T>(what: &str, m: &M, msg: T) -> R
where
    T: Message<Result = tokio::sync::oneshot::Receiver<Result<(), CaptchaError>>> + Send + 'static,
    Master: Handler<T>,
{
    let rx = ask(what, m.send(msg)).await?.map_err(|e| format!("{what}: site manager: {e}"))?;
    match ask(what, rx).await? {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{what}: error {e:?}")),
        Err(_) => Err(format!("{what}: the reply was dropped")),
    }
}
pub async fn add(m: &M, id: &str, mc: MCaptcha) -> R {
    unit("register", m, AddSite { id: id.into(), mcaptcha: mc }).await
}
pub async fn rename(m: &M, a: &str, b: &str) -> R {
    unit("rename", m, Rename { name: a.into(), rename_to: b.into() }).await
}
pub async fn remove(m: &M, a: &str) -> R {
    unit("remove", m, RemoveCaptcha(a.into())).await
}
pub async fn snapshot(m: &M) -> Result<BTreeMap<String, MCaptcha>, String> {
    let rx = ask("snapshot", m.send(GetInternalData)).await?.map_err(|e| format!("snapshot: site manager: {e}"))?;
    match ask("snapshot", rx).await? {
        Ok(Ok(h)) => Ok(h.into_iter().collect()),
        Ok(Err(e)) => Err(format!("snapshot: error {e:?}")),
        Err(_) => Err("snapshot: the reply was dropped".into()),
    }
}
pub async fn get_site(m: &M, id: &str) -> Result<Option<Addr<Counter>>, String> {
    ask("look-up", m.send(GetSite(id.into()))).await?.map_err(|e| format!("look-up: site manager: {e}"))
}

/// state of a snapshot entry against the model
fn compare(what: &str, mc: &MCaptcha, s: &Site) -> R {
    let d: Vec<libmcaptcha::defense::Level> = mc.get_defense().into();
    let l: Ladder = d.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
    if mc.get_visitors() != s.count {
        return Err(format!("{what}: visitor count {} expected {}", mc.get_visitors(), s.count));
    }
    if mc.get_duration() != s.duration {
        return Err(format!("{what}: duration {} expected {}", mc.get_duration(), s.duration));
    }
    if l != s.ladder {
        return Err(format!("{what}: levels {l:?} expected {:?}", s.ladder));
    }
    if mc.get_difficulty() != s.difficulty() {
        return Err(format!("{what}: difficulty {} expected {}", mc.get_difficulty(), s.difficulty()));
    }
    let c = *mc.get_defense().current_level();
    if (c.visitor_threshold, c.difficulty_factor) != s.ladder[s.level] {
        return Err(format!("{what}: level {c:?} expected {:?}", s.ladder[s.level]));
    }
    Ok(())
}
pub fn check_visit(what: &str, r: &AddVisitorResult, dur: u64, diff: u32) -> R {
    if r.duration != dur || r.difficulty_factor != diff {
        return Err(format!("{what}: answered duration {} difficulty {}, expected {dur} {diff}", r.duration, r.difficulty_factor));
    }
    Ok(())
}

// ---- P08 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E8 {
    /// this many visits, sent one after another
    Visit(u16),
    /// this many visits, sent at once
    Burst(u16),
    Query,
    /// look just before and just after the next visitor is due to leave
    Probe,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08 {
    ladder: Ladder,
    duration: u64,
    /// through the site manager, or the site's own actor
    direct: bool,
    /// (milliseconds before the event, event)
    events: Vec<(u64, E8)>,
}
pub struct P08;

fn gap(duration: u64) -> BoxedStrategy<u64> {
    let d = if duration >= FAR { 1_000_000 } else { duration.min(100_000) * 1000 };
    prop_oneof![
        3 => Just(0u64),
        2 => 1..50u64,
        3 => 0..=d / 4,
        2 => 0..=d,
        1 => Just(d),
        1 => Just(d / 2),
        1 => (d.saturating_sub(8))..(d + 8),
        1 => 0..=d * 3,
    ]
    .boxed()
}

enum Door {
    Master(M, String),
    Direct(Addr<Counter>),
}
impl Door {
    async fn visit(&self) -> Result<AddVisitorResult, String> {
        match self {
            Door::Master(m, id) => match visit(m, id).await? {
                Ok(Some(r)) => Ok(r),
                o => Err(format!("a visit to a registered site was answered {o:?}")),
            },
            Door::Direct(a) => ask("visit", a.send(counter::AddVisitor)).await?.map_err(|e| format!("visit: {e}")),
        }
    }
    async fn check(&self, what: &str, s: &Site) -> R {
        let (a, mc) = match self {
            Door::Master(m, id) => {
                let mut h = snapshot(m).await?;
                let mc = h.remove(id).ok_or_else(|| format!("{what}: the site is gone"))?;
                (get_site(m, id).await?.ok_or_else(|| format!("{what}: the site is unknown"))?, mc)
            }
            Door::Direct(a) => (
                a.clone(),
                ask("state", a.send(counter::GetInternalData)).await?.map_err(|e| format!("{what}: {e}"))?,
            ),
        };
        let n = ask("count", a.send(counter::GetCurrentVisitorCount)).await?.map_err(|e| format!("{what}: {e}"))?;
        if n != s.count {
            return Err(format!("{what}: count reported as {n}, {} visits in the window", s.count));
        }
        compare(what, &mc, s)
    }
}

impl Prop for P08 {
    type Case = C08;
    const ID: &'static str = "P08";
    const RULE: &'static str = "at some query some but not all of the visits made so far have left";
    const QUICK: u32 = 200_000;
    const THOROUGH: u32 = 6_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C08> {
        let dur = prop_oneof![6 => 1u64..40, 2 => 40u64..100_000, 1 => Just(1u64), 1 => far()].boxed();
        let ev = prop_oneof![5 => (1u16..6).prop_map(E8::Visit), 1 => (1u16..60).prop_map(E8::Burst), 2 => Just(E8::Query), 2 => Just(E8::Probe)];
        let usual = (ladder(5, 8, 8, 9), dur.clone(), any::<bool>()).prop_flat_map(move |(ladder, duration, direct)| {
            proptest::collection::vec((gap(duration), ev.clone()), 1..24)
                .prop_map(move |events| C08 { ladder: ladder.clone(), duration, direct, events })
        });
        // crowds
        let large = |n: std::ops::Range<u16>, dur: BoxedStrategy<u64>| {
            (ladder(5, 2_000, 2_000, 9), dur, any::<bool>()).prop_flat_map(move |(ladder, duration, direct)| {
                proptest::collection::vec((gap(duration), n.clone().prop_map(E8::Burst)), 2..4)
                    .prop_map(move |events| C08 { ladder: ladder.clone(), duration, direct, events })
            })
        };
        prop_oneof![
            20_000 => usual,
            14 => large(200..3_000, (1u64..40).boxed()),
            2 => large(20_000..50_000, (1u64..5_000).boxed()),
        ]
        .boxed()
    }
    fn run(c: &C08, obs: &mut Obs) -> R {
        vt::run(async {
            let clock = Clock::start();
            let mc = mcaptcha(&c.ladder, c.duration);
            let door = if c.direct {
                Door::Direct(Counter::from(mc).start())
            } else {
                let m = Master::new(NEVER).start();
                add(&m, "site", mc).await?;
                Door::Master(m, "site".into())
            };
            let mut s = Site::new(&c.ladder, c.duration);
            let (mut total, mut partial, mut empty) = (0u64, false, false);
            for (i, (g, e)) in c.events.iter().enumerate() {
                pass(*g).await;
                while s.near_deadline(clock.ms(), SLACK) {
                    pass(2 * SLACK + 1).await;
                }
                s.expire(clock.ms());
                let what = format!("event {i} {e:?} at {} ms", clock.ms());
                match e {
                    E8::Visit(n) => {
                        for _ in 0..*n {
                            let r = door.visit().await?;
                            let d = s.visit(clock.ms());
                            total += 1;
                            check_visit(&what, &r, c.duration, d)?;
                        }
                    }
                    E8::Burst(n) => {
                        let all = futures_util::future::join_all((0..*n).map(|_| door.visit())).await;
                        let mut got = Vec::new();
                        let mut want = Vec::new();
                        for r in all {
                            let r = r?;
                            if r.duration != c.duration {
                                return Err(format!("{what}: duration {}", r.duration));
                            }
                            got.push(r.difficulty_factor);
                            want.push(s.visit(clock.ms()));
                            total += 1;
                        }
                        got.sort();
                        want.sort();
                        if got != want {
                            return Err(format!("{what}: difficulties {got:?}, expected {want:?}"));
                        }
                    }
                    E8::Query => {}
                    E8::Probe => {
                        if let Some(d) = s.pending.iter().map(|p| p.0).min().filter(|d| *d < 1 << 34) {
                            let now = clock.ms();
                            if d > now + 2 * SLACK {
                                pass(d - now - SLACK).await;
                                s.expire(clock.ms());
                                door.check(&format!("{what}, just before a visitor leaves"), &s).await?;
                            }
                            while s.near_deadline(clock.ms(), SLACK) || clock.ms() < d {
                                pass(SLACK).await;
                            }
                            s.expire(clock.ms());
                            obs.label("probed-deadline");
                        }
                    }
                }
                door.check(&what, &s).await?;
                partial |= s.count > 0 && (s.count as u64) < total;
                empty |= total > 0 && s.count == 0;
            }
            // everybody leaves
            if c.duration < 1_000_000 {
                pass(c.duration * 1000 + SLACK).await;
                s.expire(clock.ms());
                door.check("after the last window", &s).await?;
                if s.count != 0 {
                    return Err("harness: model not empty".into());
                }
                // and stays that way
                pass(c.duration * 1000 + SLACK).await;
                let r = door.visit().await?;
                let d = s.visit(clock.ms());
                check_visit("a late visit", &r, c.duration, d)?;
                door.check("after a late visit", &s).await?;
            }
            obs.nontrivial = partial;
            if empty {
                obs.label("emptied");
            }
            obs.label(if c.direct { "direct" } else { "through-manager" });
            Ok(())
        })
    }
}

// ---- P09 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E9 {
    Add(u16, u16, u64),
    Visit(u16, u16),
    Rename(u16, u16),
    Remove(u16),
    Look(u16),
    /// visit through an address handed out earlier
    VisitAddr(u16),
    Pass(u64),
    /// to so many ms around the end of some visit
    Until(u16, i16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C09 {
    ladders: Vec<Ladder>,
    names: Vec<String>,
    ops: Vec<E9>,
}
pub struct P09;

struct World9 {
    /// every site that ever existed
    sites: Vec<Site>,
    names: BTreeMap<String, usize>,
}

fn ladders() -> BoxedStrategy<Vec<Ladder>> {
    proptest::collection::vec(prop_oneof![3 => ladder(4, 4, 4, 9), 1 => ladder(6, 1, 1, 5)], 1..4).boxed()
}

impl Prop for P09 {
    type Case = C09;
    const ID: &'static str = "P09";
    const RULE: &'static str = "a visited site is renamed or replaced, or a rename lands on a registered name";
    const QUICK: u32 = 240_000;
    const THOROUGH: u32 = 6_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C09> {
        let op = |n: u16| {
            let n = 0..n;
            prop_oneof![
                4 => (n.clone(), 0..4u16, crate::p_system::spans()).prop_map(|(a, b, c)| E9::Add(a, b, c)),
                8 => (n.clone(), 1..6u16).prop_map(|(a, b)| E9::Visit(a, b)),
                4 => (n.clone(), n.clone()).prop_map(|(a, b)| E9::Rename(a, b)),
                2 => n.clone().prop_map(E9::Remove),
                2 => n.clone().prop_map(E9::Look),
                1 => (0..4u16).prop_map(E9::VisitAddr),
                3 => prop_oneof![0..3000u64, 0..40_000u64].prop_map(E9::Pass),
                1 => (any::<u16>(), prop_oneof![Just(-20i16), Just(20i16), -2000..2000i16]).prop_map(|(k, d)| E9::Until(k, d)),
            ]
        };
        let usual = (ladders(), some_names(4), proptest::collection::vec(op(4), 1..40))
            .prop_map(|(ladders, names, ops)| C09 { ladders, names, ops });
        // many sites at once
        let large = (ladders(), some_names(400), proptest::collection::vec(op(400), 1..40), 40..401u16).prop_map(
            |(ladders, names, ops, n)| {
                let mut all: Vec<E9> = (0..n).map(|i| E9::Add(i, i, 1 + i as u64 % 40)).collect();
                all.extend(ops);
                C09 { ladders, names, ops: all }
            },
        );
        prop_oneof![2_500 => usual, 1 => large].boxed()
    }
    fn run(c: &C09, obs: &mut Obs) -> R {
        vt::run(async {
            let clock = Clock::start();
            let m = Master::new(NEVER).start();
            let nm = |i: u16| c.names[i as usize % c.names.len()].clone();
            let mut w = World9 { sites: vec![], names: BTreeMap::new() };
            let mut addrs: Vec<(Addr<Counter>, usize)> = vec![];
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?}");
                if let E9::Pass(ms) = op {
                    pass(*ms).await;
                }
                if let E9::Until(k, d) = op {
                    let ends: Vec<u64> = w.sites.iter().flat_map(|s| s.pending.iter().map(|p| p.0)).collect();
                    if !ends.is_empty() {
                        let to = ends[*k as usize % ends.len()].saturating_add_signed(*d as i64);
                        pass(to.saturating_sub(clock.ms())).await;
                        obs.label("to-the-end-of-a-visit");
                    }
                }
                while w.sites.iter().any(|s| s.near_deadline(clock.ms(), SLACK)) {
                    pass(2 * SLACK + 1).await;
                }
                for s in w.sites.iter_mut() {
                    s.expire(clock.ms());
                }
                match op {
                    E9::Pass(_) | E9::Until(..) => {}
                    E9::Add(n, l, d) => {
                        let l = &c.ladders[*l as usize % c.ladders.len()];
                        add(&m, &nm(*n), mcaptcha(l, *d)).await.map_err(|e| format!("{what}: {e}"))?;
                        w.sites.push(Site::new(l, *d));
                        if let Some(o) = w.names.insert(nm(*n), w.sites.len() - 1) {
                            if w.sites[o].count > 0 {
                                obs.nontrivial = true;
                                obs.label("replaced-visited");
                            }
                        }
                    }
                    E9::Visit(n, k) => {
                        for _ in 0..*k {
                            let r = visit(&m, &nm(*n)).await.map_err(|e| format!("{what}: {e}"))?;
                            match (r, w.names.get(&nm(*n))) {
                                (Ok(None), None) => obs.label("visit-unknown"),
                                (Ok(Some(r)), Some(s)) => {
                                    let s = &mut w.sites[*s];
                                    let d = s.visit(clock.ms());
                                    check_visit(&what, &r, s.duration, d)?;
                                }
                                (r, k) => return Err(format!("{what}: answered {r:?}, name known: {}", k.is_some())),
                            }
                        }
                    }
                    E9::Rename(a, b) => {
                        rename(&m, &nm(*a), &nm(*b)).await.map_err(|e| format!("{what}: {e}"))?;
                        if let Some(s) = w.names.remove(&nm(*a)) {
                            if w.sites[s].count > 0 {
                                obs.label("renamed-visited");
                                obs.nontrivial = true;
                            }
                            if w.names.insert(nm(*b), s).is_some() {
                                obs.label("renamed-onto");
                                obs.nontrivial = true;
                            }
                        } else {
                            obs.label("rename-unknown");
                        }
                    }
                    E9::Remove(n) => {
                        remove(&m, &nm(*n)).await.map_err(|e| format!("{what}: {e}"))?;
                        if w.names.remove(&nm(*n)).is_none() {
                            obs.label("remove-unknown");
                        } else {
                            obs.label("removed");
                        }
                    }
                    E9::Look(n) => {
                        let a = get_site(&m, &nm(*n)).await?;
                        match (a, w.names.get(&nm(*n))) {
                            (None, None) => {}
                            (Some(a), Some(s)) => {
                                let n = ask("count", a.send(counter::GetCurrentVisitorCount)).await?.map_err(|e| format!("{what}: {e}"))?;
                                if n != w.sites[*s].count {
                                    return Err(format!("{what}: count {n} expected {}", w.sites[*s].count));
                                }
                                addrs.push((a, *s));
                            }
                            (a, s) => return Err(format!("{what}: found {} expected {}", a.is_some(), s.is_some())),
                        }
                    }
                    E9::VisitAddr(k) => {
                        if let Some((a, s)) = addrs.get(*k as usize) {
                            let r = ask("direct visit", a.send(counter::AddVisitor)).await?;
                            let live = w.names.values().any(|x| x == s);
                            match r {
                                Ok(r) => {
                                    let s = &mut w.sites[*s];
                                    let d = s.visit(clock.ms());
                                    if live {
                                        check_visit(&what, &r, s.duration, d)?;
                                    }
                                }
                                Err(e) => {
                                    if live {
                                        return Err(format!("{what}: a registered site does not answer: {e}"));
                                    }
                                }
                            }
                            obs.label("direct-visit");
                        }
                    }
                }
                settle(3).await;
                // the whole state after every operation
                let snap = snapshot(&m).await.map_err(|e| format!("{what}: {e}"))?;
                let got: BTreeSet<_> = snap.keys().cloned().collect();
                let want: BTreeSet<_> = w.names.keys().cloned().collect();
                if got != want {
                    return Err(format!("{what}: registered names {got:?}, expected {want:?}"));
                }
                for (n, s) in &w.names {
                    compare(&format!("{what}: site {n:?}"), &snap[n], &w.sites[*s])?;
                }
            }
            // names never registered stay unknown
            for n in 0..6u16 {
                let n = nm(n);
                let known = get_site(&m, &n).await?.is_some();
                if known != w.names.contains_key(&n) {
                    return Err(format!("{n:?} known: {known}"));
                }
            }
            Ok(())
        })
    }
}

// ---- P10 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E10 {
    Add(u16, u16, u64),
    Visit(u16, u16),
    Look(u16),
    Rename(u16, u16),
    /// ask for a collection
    Collect,
    /// ask for a collection and visit these sites, after so many turns each, while it is at work
    Collide(Vec<(u16, u8)>),
    /// let time pass
    Pass(u64),
    /// let time pass to just after the next periodic collection
    NextPeriod,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10 {
    ladders: Vec<Ladder>,
    gc: u64,
    ops: Vec<E10>,
}
pub struct P10;

struct S10 {
    site: Site,
    accessed: bool,
    addrs: Vec<Addr<Counter>>,
}

impl Prop for P10 {
    type Case = C10;
    const ID: &'static str = "P10";
    const RULE: &'static str = "one collection reclaims a site and another site survives a collection";
    const QUICK: u32 = 200_000;
    const THOROUGH: u32 = 5_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C10> {
        let op = |n: u16| {
            let n = 0..n;
            prop_oneof![
                5 => (n.clone(), 0..4u16, prop_oneof![1..12u64, 1..60u64]).prop_map(|(a, b, c)| E10::Add(a, b, c)),
                6 => (n.clone(), 1..4u16).prop_map(|(a, b)| E10::Visit(a, b)),
                3 => n.clone().prop_map(E10::Look),
                1 => (n.clone(), n.clone()).prop_map(|(a, b)| E10::Rename(a, b)),
                2 => Just(E10::Collect),
                1 => proptest::collection::vec((n.clone(), 0..6u8), 1..4).prop_map(E10::Collide),
                4 => prop_oneof![0..3000u64, 0..25_000u64, 0..80_000u64].prop_map(E10::Pass),
                3 => Just(E10::NextPeriod),
            ]
        };
        let period = || prop_oneof![4 => 1..20u64, 1 => 20..200u64, 1 => Just(NEVER)];
        let usual = (ladders(), period(), proptest::collection::vec(op(4), 1..30))
            .prop_map(|(ladders, gc, ops)| C10 { ladders, gc, ops });
        // many sites, most of them idle
        let large = (ladders(), period(), proptest::collection::vec(op(450), 1..20), 30..450u16, proptest::collection::vec(0..8u16, 450))
            .prop_map(|(ladders, gc, ops, n, how)| {
                let mut all = vec![];
                for i in 0..n {
                    all.push(E10::Add(i, i, 1 + i as u64 % 9));
                    match how[i as usize] {
                        0 => (),
                        1 => all.push(E10::Visit(i, 1)),
                        _ => all.push(E10::Look(i)),
                    }
                }
                all.push(E10::Collect);
                all.extend(ops);
                C10 { ladders, gc, ops: all }
            });
        prop_oneof![4_000 => usual, 1 => large].boxed()
    }
    fn run(c: &C10, obs: &mut Obs) -> R {
        vt::run(async {
            let m = Master::new(c.gc).start();
            let clock = Clock::start();
            settle(6).await; // the collection at start
            let period = c.gc * 1000;
            // the next periodic collection
            let mut must: u64 = period;
            let mut sites: BTreeMap<u16, S10> = BTreeMap::new();
            let (mut reclaimed, mut kept) = (false, false);

            // check the whole state; `allowed` sites may be missing, and are then forgotten
            async fn sync(m: &M, sites: &mut BTreeMap<u16, S10>, allowed: bool, what: &str) -> Result<u32, String> {
                settle(4 + 3 * sites.len()).await;
                let snap = snapshot(m).await.map_err(|e| format!("{what}: {e}"))?;
                for n in snap.keys() {
                    if !sites.keys().any(|k| name(*k) == *n) {
                        return Err(format!("{what}: {n:?} is registered but should have been reclaimed or never was"));
                    }
                }
                let mut gone = vec![];
                for (k, s) in sites.iter() {
                    match snap.get(&name(*k)) {
                        Some(mc) => compare(&format!("{what}: site {:?}", name(*k)), mc, &s.site)?,
                        None => {
                            if !(allowed && s.accessed && s.site.count == 0) {
                                return Err(format!(
                                    "{what}: site {:?} was reclaimed, {} visitors, accessed: {}",
                                    name(*k), s.site.count, s.accessed
                                ));
                            }
                            gone.push(*k);
                        }
                    }
                }
                for k in &gone {
                    sites.remove(k);
                }
                Ok(gone.len() as u32)
            }
            // a collection that has just happened
            async fn collected(m: &M, sites: &mut BTreeMap<u16, S10>, what: &str, obs: &mut Obs) -> Result<(bool, bool), String> {
                settle(4 + 6 * sites.len()).await;
                let gone: Vec<u16> = sites.iter().filter(|(_, s)| s.accessed && s.site.count == 0).map(|x| *x.0).collect();
                let mut dead = vec![];
                for k in &gone {
                    dead.push((*k, sites.remove(k).unwrap()));
                }
                let kept = !sites.is_empty();
                if sites.values().any(|s| !s.accessed && s.site.count == 0) {
                    obs.label("kept-unaccessed");
                }
                if sites.values().any(|s| s.site.count > 0) {
                    obs.label("kept-visited");
                }
                sync(m, sites, false, what).await?;
                for (k, s) in dead {
                    for a in &s.addrs {
                        if a.connected() {
                            return Err(format!("{what}: the site {:?} was forgotten but still runs", name(k)));
                        }
                    }
                    match visit(m, &name(k)).await? {
                        Ok(None) => {}
                        o => return Err(format!("{what}: a visit to the reclaimed {:?} was answered {o:?}", name(k))),
                    }
                }
                Ok((!gone.is_empty(), kept))
            }

            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?} at {} ms", clock.ms());
                let until = match op {
                    E10::Pass(ms) => clock.ms() + ms,
                    E10::NextPeriod if c.gc < 1000 => must + SLACK,
                    _ => clock.ms(),
                };
                // walk through everything due until then, and away from anything about to happen
                loop {
                    let now = clock.ms();
                    let next_exp = sites.values().flat_map(|s| s.site.pending.iter().map(|p| p.0)).min().unwrap_or(u64::MAX);
                    let ev = must.min(next_exp);
                    if ev > until.max(now) + SLACK {
                        if until > now {
                            pass(until - now).await;
                        }
                        break;
                    }
                    // does an expiry coincide with a collection? then the order is not determined: allow both
                    pass(ev.saturating_sub(now) + 1).await;
                    let now = clock.ms();
                    let coincide = sites.values().any(|s| s.site.pending.iter().any(|p| must.abs_diff(p.0) <= SLACK));
                    for s in sites.values_mut() {
                        s.site.expire(now);
                    }
                    let mut due_must = false;
                    if must <= now {
                        must += period;
                        due_must = true;
                    }
                    if due_must && !coincide {
                        let (r, k) = collected(&m, &mut sites, &format!("{what}: periodic collection at {now} ms"), obs).await?;
                        reclaimed |= r;
                        kept |= k;
                        obs.label("periodic");
                        obs.count("periodic collections", 1);
                    } else if coincide {
                        if sync(&m, &mut sites, true, &format!("{what}: at {now} ms")).await? > 0 {
                            reclaimed = true;
                        }
                        obs.label("collection-meets-expiry");
                    } else {
                        sync(&m, &mut sites, false, &format!("{what}: at {now} ms")).await?;
                    }
                }
                let what = format!("op {i} {op:?} at {} ms", clock.ms());
                match op {
                    E10::Pass(_) | E10::NextPeriod => {}
                    E10::Add(n, l, d) => {
                        let l = &c.ladders[*l as usize % c.ladders.len()];
                        add(&m, &name(*n), mcaptcha(l, *d)).await?;
                        sites.insert(*n, S10 { site: Site::new(l, *d), accessed: false, addrs: vec![] });
                    }
                    E10::Visit(n, k) => {
                        for _ in 0..*k {
                            match (visit(&m, &name(*n)).await?, sites.get_mut(n)) {
                                (Ok(None), None) => {}
                                (Ok(Some(r)), Some(s)) => {
                                    let d = s.site.visit(clock.ms());
                                    s.accessed = true;
                                    check_visit(&what, &r, s.site.duration, d)?;
                                }
                                (r, s) => return Err(format!("{what}: answered {r:?}, registered: {}", s.is_some())),
                            }
                        }
                    }
                    E10::Look(n) => match (get_site(&m, &name(*n)).await?, sites.get_mut(n)) {
                        (None, None) => {}
                        (Some(a), Some(s)) => {
                            s.accessed = true;
                            s.addrs.push(a);
                        }
                        (a, s) => return Err(format!("{what}: found {}, registered: {}", a.is_some(), s.is_some())),
                    },
                    E10::Rename(a, b) => {
                        rename(&m, &name(*a), &name(*b)).await?;
                        if let Some(mut s) = sites.remove(a) {
                            s.accessed = false;
                            sites.insert(*b, s);
                            obs.label("renamed");
                        }
                    }
                    E10::Collide(visits) => {
                        m.do_send(CleanUp);
                        for (n, turns) in visits {
                            settle(*turns as usize).await;
                            // what is there to reclaim may be reclaimed before or after
                            let idle = sites.get(n).map_or(true, |s| s.accessed && s.site.count == 0);
                            match visit(&m, &name(*n)).await? {
                                Ok(Some(r)) => match sites.get_mut(n) {
                                    Some(s) => {
                                        let d = s.site.visit(clock.ms());
                                        s.accessed = true;
                                        check_visit(&what, &r, s.site.duration, d)?;
                                        obs.label("visited-meanwhile");
                                    }
                                    None => return Err(format!("{what}: {:?} answers a visit but was reclaimed or never was", name(*n))),
                                },
                                r if !idle => return Err(format!("{what}: {:?} answers a visit with {r:?}", name(*n))),
                                _ => {
                                    if sites.remove(n).is_some() {
                                        reclaimed = true;
                                        obs.label("reclaimed-before-the-visit");
                                    }
                                }
                            }
                        }
                        settle(40 + 6 * sites.len()).await;
                        let (r, k) = collected(&m, &mut sites, &what, obs).await?;
                        reclaimed |= r;
                        kept |= k;
                    }
                    E10::Collect => {
                        ask("collection", m.send(CleanUp)).await?.map_err(|e| format!("{what}: {e}"))?;
                        settle(40 + 6 * sites.len()).await;
                        let (r, k) = collected(&m, &mut sites, &what, obs).await?;
                        reclaimed |= r;
                        kept |= k;
                        obs.label("requested");
                    }
                }
                sync(&m, &mut sites, false, &what).await?;
            }
            obs.nontrivial = reclaimed && kept;
            Ok(())
        })
    }
}

// ---- P11 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E11 {
    Add(u8),
    Visit(u8),
    Look(u8),
    Rename(u8, u8),
    Remove(u8),
    Snapshot,
    Collect,
    /// stop the actor of a site directly, through an address looked up before
    Stop(u8),
    /// visit through an address looked up before
    VisitAddr(u8),
    Yield(u8),
    /// let everything finish, then let time pass
    Quiet(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11 {
    gc: u64,
    duration: u64,
    ops: Vec<E11>,
}
pub struct P11;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct W11 {
    /// name -> (site, accessed)
    names: BTreeMap<u8, (u8, bool)>,
    /// deadlines of counted visits per site
    visits: BTreeMap<u8, Vec<u64>>,
    /// removed, reclaimed: may or may not still answer
    dead: BTreeSet<u8>,
}
/// everything a collection may do to a world
fn close(ws: BTreeSet<W11>, dying: &BTreeSet<u8>, collecting: bool) -> BTreeSet<W11> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<W11> = ws.into_iter().collect();
    while let Some(w) = todo.pop() {
        if !out.insert(w.clone()) {
            continue;
        }
        for (n, (s, acc)) in &w.names {
            let idle = w.visits.get(s).map_or(true, |v| v.is_empty());
            if dying.contains(s) || (collecting && *acc && idle) {
                let mut v = w.clone();
                v.dead.insert(*s);
                v.names.remove(n);
                todo.push(v);
            }
        }
    }
    out
}

type Pending = (usize, u8, u64, std::pin::Pin<Box<dyn std::future::Future<Output = Result<Result<Option<AddVisitorResult>, CaptchaError>, String>>>>);

impl Prop for P11 {
    type Case = C11;
    const ID: &'static str = "P11";
    const RULE: &'static str = "an operation other than a look-up is sent after a collection was asked for and before things came to rest, or a site is stopped directly";
    const QUICK: u32 = 320_000;
    const THOROUGH: u32 = 8_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C11> {
        let n = 0..3u8;
        let op = prop_oneof![
            3 => n.clone().prop_map(E11::Add),
            4 => n.clone().prop_map(E11::Visit),
            3 => n.clone().prop_map(E11::Look),
            2 => (n.clone(), n.clone()).prop_map(|(a, b)| E11::Rename(a, b)),
            1 => n.clone().prop_map(E11::Remove),
            1 => Just(E11::Snapshot),
            4 => Just(E11::Collect),
            1 => (0..3u8).prop_map(E11::Stop),
            1 => (0..3u8).prop_map(E11::VisitAddr),
            6 => (0..5u8).prop_map(E11::Yield),
            2 => prop_oneof![Just(0u64), 0..9000u64, Just(100_000u64)].prop_map(E11::Quiet),
        ];
        // sites that are idle and accessed, then a collection, then interference
        let seeded = (0..3u8, 0..3u8, proptest::collection::vec(op.clone(), 0..14), 0..6u8).prop_map(|(a, b, tail, y)| {
            let mut v = vec![E11::Add(a), E11::Look(a), E11::Add(b), E11::Look(b), E11::Quiet(0), E11::Collect, E11::Yield(y)];
            v.extend(tail);
            v
        });
        (
            prop_oneof![3 => Just(NEVER), 2 => 1..8u64],
            1..6u64,
            prop_oneof![1 => proptest::collection::vec(op, 1..24), 1 => seeded],
        )
            .prop_map(|(gc, duration, ops)| C11 { gc, duration, ops })
            .boxed()
    }
    fn run(c: &C11, obs: &mut Obs) -> R {
        vt::run(async {
            let m = Master::new(c.gc).start();
            let clock = Clock::start();
            settle(6).await;
            let ladder: Ladder = vec![(2, 5), (4, 7)];
            let mut worlds: BTreeSet<W11> = BTreeSet::new();
            worlds.insert(W11 { names: BTreeMap::new(), visits: BTreeMap::new(), dead: BTreeSet::new() });
            let mut dying: BTreeSet<u8> = BTreeSet::new();
            let mut next_site = 0u8;
            // duration of site s is duration + s, so that sites can be told apart
            let dur = |s: u8| c.duration + s as u64;
            let mut collecting = false;
            let mut addrs: Vec<(Addr<Counter>, Vec<u8>)> = vec![];
            let mut outstanding: Vec<Pending> = vec![];
            let mut direct: Vec<std::pin::Pin<Box<actix::dev::Request<Counter, counter::AddVisitor>>>> = vec![];
            let mut others: Vec<(String, std::pin::Pin<Box<dyn std::future::Future<Output = R>>>)> = vec![];
            let mut visits_log: Vec<(usize, u8, u64)> = vec![];
            let mut capped = false;
            // periodic collections run at these times plus multiples of the period
            let mut phases: Vec<u64> = vec![0];
            let mut ops = c.ops.clone();
            ops.push(E11::Quiet(0));
            // The worlds are advanced op by op in the order sent (the manager's mailbox is a queue); the
            // answer to a visit is only known at rest, so a visit opens both possibilities and the answers
            // select among them at the end: world sets are kept with the answers they imply.
            let mut tagged: BTreeSet<(W11, Vec<Option<u8>>)> = worlds.iter().map(|w| (w.clone(), vec![])).collect();
            for (i, op) in ops.iter().enumerate() {
                let what = format!("op {i} {op:?} at {} ms", clock.ms());
                if outstanding.len() + others.len() >= 12 {
                    settle(60).await;
                }
                if collecting && !matches!(op, E11::Yield(_) | E11::Quiet(_) | E11::Look(_) | E11::Collect | E11::Snapshot) {
                    obs.nontrivial = true;
                    obs.label("during-collection");
                }
                // closure under collections
                {
                    let mut t2 = BTreeSet::new();
                    for (w, tags) in tagged {
                        for v in close([w].into(), &dying, collecting) {
                            t2.insert((v, tags.clone()));
                        }
                    }
                    tagged = t2;
                    if tagged.len() > 3000 {
                        capped = true;
                    }
                }
                if capped {
                    obs.label("too-many-possibilities");
                    return Ok(());
                }
                macro_rules! each {
                    ($w:ident, $t:ident, $body:block) => {{
                        let mut t2 = BTreeSet::new();
                        for (mut $w, mut $t) in tagged {
                            $body
                            t2.insert(($w, $t));
                        }
                        tagged = t2;
                    }};
                }
                match op {
                    E11::Yield(n) => settle(*n as usize).await,
                    E11::Collect => {
                        let mm = m.clone();
                        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = R>>> = Box::pin(async move {
                            ask("collection", mm.send(CleanUp)).await?.map_err(|e| format!("collection: site manager: {e}"))
                        });
                        if futures_util::poll!(&mut f).is_pending() {
                            others.push((what.clone(), f));
                        }
                        collecting = true;
                        phases.push(clock.ms());
                        obs.label("collection");
                    }
                    E11::Snapshot => {
                        let mm = m.clone();
                        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = R>>> =
                            Box::pin(async move { snapshot(&mm).await.map(|_| ()) });
                        if futures_util::poll!(&mut f).is_pending() {
                            others.push((what.clone(), f));
                        }
                    }
                    E11::Add(n) => {
                        let s = next_site;
                        next_site += 1;
                        let (mm, nn, mc) = (m.clone(), name(*n), mcaptcha(&ladder, dur(s)));
                        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = R>>> =
                            Box::pin(async move { add(&mm, &nn, mc).await });
                        if futures_util::poll!(&mut f).is_pending() {
                            others.push((what.clone(), f));
                        }
                        each!(w, _t, {
                            w.names.insert(*n, (s, false));
                            w.visits.insert(s, vec![]);
                        });
                    }
                    E11::Rename(a, b) => {
                        let (mm, x, y) = (m.clone(), name(*a), name(*b));
                        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = R>>> =
                            Box::pin(async move { rename(&mm, &x, &y).await });
                        if futures_util::poll!(&mut f).is_pending() {
                            others.push((what.clone(), f));
                        }
                        each!(w, _t, {
                            // a collection under way may have chosen the site already
                            if let Some((s, acc)) = w.names.remove(a) {
                                w.names.insert(*b, (s, acc && collecting));
                            }
                        });
                    }
                    E11::Remove(a) => {
                        let (mm, x) = (m.clone(), name(*a));
                        // removing a site whose actor was stopped before may be answered with an error
                        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = R>>> = Box::pin(async move {
                            let rx = ask("remove", mm.send(RemoveCaptcha(x))).await?.map_err(|e| format!("remove: site manager: {e}"))?;
                            ask("remove", rx).await?.map(|_| ()).map_err(|_| "remove: the reply was dropped".to_string())
                        });
                        if futures_util::poll!(&mut f).is_pending() {
                            others.push((what.clone(), f));
                        }
                        each!(w, _t, {
                            if let Some((s, _)) = w.names.remove(a) {
                                w.dead.insert(s);
                            }
                        });
                    }
                    E11::Look(n) => {
                        // awaited: the address is needed
                        let a = get_site(&m, &name(*n)).await.map_err(|e| format!("{what}: {e}"))?;
                        let mut t2 = BTreeSet::new();
                        let mut could = BTreeSet::new();
                        for (w, t) in &tagged {
                            // the collection may have gone on while waiting
                            for mut w in close([w.clone()].into(), &dying, collecting) {
                                match (&a, w.names.get(n).copied()) {
                                    (None, None) => {}
                                    (Some(_), Some((s, _))) => {
                                        could.insert(s);
                                        w.names.insert(*n, (s, true));
                                    }
                                    // a stopped site may be found until it is collected
                                    _ => continue,
                                }
                                t2.insert((w, t.clone()));
                            }
                        }
                        if t2.is_empty() {
                            return Err(format!("{what}: found: {}, impossible in {:?}", a.is_some(), tagged.iter().next()));
                        }
                        tagged = t2;
                        if let Some(a) = a {
                            addrs.push((a, could.into_iter().collect()));
                        }
                    }
                    E11::Stop(k) => {
                        if let Some((a, could)) = addrs.get(*k as usize) {
                            a.do_send(counter::Stop);
                            dying.extend(could);
                            obs.label("stopped-directly");
                            obs.nontrivial = true;
                        }
                    }
                    E11::VisitAddr(k) => {
                        if let Some((a, could)) = addrs.get(*k as usize) {
                            // counted or not: only used to disturb; the site is then out of the count model
                            direct.push(Box::pin(a.send(counter::AddVisitor)));
                            let last = direct.last_mut().unwrap();
                            let _ = futures_util::poll!(last);
                            if could.len() == 1 {
                                let s = could[0];
                                let at = clock.ms() + dur(s) * 1000;
                                let mut t2 = BTreeSet::new();
                                for (mut w, t) in tagged {
                                    t2.insert((w.clone(), t.clone()));
                                    if !w.dead.contains(&s) || dying.contains(&s) {
                                        w.visits.entry(s).or_default().push(at);
                                        t2.insert((w, t));
                                    }
                                }
                                tagged = t2;
                            } else {
                                // not known which site it is
                                obs.label("ambiguous-address");
                                return Ok(());
                            }
                        }
                    }
                    E11::Visit(n) => {
                        let (mm, x) = (m.clone(), name(*n));
                        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<Result<Option<AddVisitorResult>, CaptchaError>, String>>>> =
                            Box::pin(async move { visit(&mm, &x).await });
                        let _ = futures_util::poll!(&mut f);
                        outstanding.push((i, *n, clock.ms(), f));
                        visits_log.push((i, *n, clock.ms()));
                        // tag: Some(site) counted, None unknown name, Some(255) error
                        let mut t2 = BTreeSet::new();
                        for (w, t) in &tagged {
                            match w.names.get(n).copied() {
                                None => {
                                    let mut t = t.clone();
                                    t.push(None);
                                    t2.insert((w.clone(), t));
                                }
                                Some((s, acc)) => {
                                    let mut w = w.clone();
                                    let idle = w.visits[&s].is_empty();
                                    w.names.insert(*n, (s, true));
                                    // a visit that reaches a site which stops: error
                                    if dying.contains(&s) || (collecting && acc && idle) {
                                        let mut t = t.clone();
                                        t.push(Some(255));
                                        t2.insert((w.clone(), t));
                                    }
                                    let at = clock.ms() + dur(s) * 1000;
                                    w.visits.get_mut(&s).unwrap().push(at);
                                    let mut t = t.clone();
                                    t.push(Some(s));
                                    t2.insert((w, t));
                                }
                            }
                        }
                        tagged = t2;
                    }
                    E11::Quiet(ms) => {
                        // all requests must be answered
                        let mut answers: Vec<Option<u8>> = vec![];
                        for (j, n, at, f) in outstanding.drain(..) {
                            let r = f.await.map_err(|e| format!("op {j} visit of {:?} at {at} ms: {e}", name(n)))?;
                            answers.push(match r {
                                Ok(None) => None,
                                Ok(Some(r)) => Some((r.duration - c.duration) as u8),
                                Err(_) => Some(255),
                            });
                        }
                        for (w, f) in others.drain(..) {
                            f.await.map_err(|e| format!("{w}: {e}"))?;
                        }
                        for d in direct.drain(..) {
                            let _ = ask("direct visit", d).await?;
                        }
                        settle(80).await;
                        let mut t2 = BTreeSet::new();
                        for (w, t) in tagged.clone() {
                            // a direct stop may overtake a visit on its way to the site
                            let fits = t.len() == answers.len()
                                && t.iter().zip(&answers).all(|(t, a)| {
                                    t == a || (*a == Some(255) && t.map_or(false, |s| dying.contains(&s)))
                                });
                            if fits {
                                for v in close([w].into(), &dying, collecting) {
                                    t2.insert((v, vec![]));
                                }
                            }
                        }
                        if t2.is_empty() {
                            return Err(format!(
                                "at rest after op {i}: the visits {:?} were answered {answers:?} (a number is the site that counted it, none: no such site, 255: error); no order of collections explains that, possible were e.g. {:?}",
                                visits_log,
                                tagged.iter().take(3).map(|t| &t.1).collect::<Vec<_>>()
                            ));
                        }
                        visits_log.clear();
                        // the state at rest must be that of one of the worlds
                        let snap = snapshot(&m).await.map_err(|e| format!("at rest after op {i}: {e}"))?;
                        let seen: BTreeMap<String, (u64, u32)> =
                            snap.iter().map(|(n, mc)| (n.clone(), (mc.get_duration(), mc.get_visitors()))).collect();
                        let mut t3 = BTreeSet::new();
                        for (w, t) in &t2 {
                            let expect: BTreeMap<String, (u64, u32)> = w
                                .names
                                .iter()
                                .filter(|(_, (s, _))| !dying.contains(s))
                                .map(|(n, (s, _))| (name(*n), (dur(*s), w.visits[s].len() as u32)))
                                .collect();
                            let seen2: BTreeMap<String, (u64, u32)> = seen
                                .iter()
                                .filter(|(_, (d, _))| !dying.contains(&((d - c.duration) as u8)))
                                .map(|(a, b)| (a.clone(), *b))
                                .collect();
                            if expect == seen2 {
                                t3.insert((w.clone(), t.clone()));
                            }
                        }
                        if t3.is_empty() {
                            return Err(format!(
                                "at rest after op {i}: sites (duration, visitors) {seen:?}; no order of collections explains that, possible were e.g. {:?}",
                                t2.iter().take(3).map(|t| &t.0).collect::<Vec<_>>()
                            ));
                        }
                        // no name refers to a stopped site, unless it was stopped directly
                        for (n, mc) in &snap {
                            let s = (mc.get_duration() - c.duration) as u8;
                            if dying.contains(&s) {
                                continue;
                            }
                            let _ = n;
                        }
                        for n in 0..3u8 {
                            let in_all_unknown = t3.iter().all(|(w, _)| !w.names.contains_key(&n));
                            let direct_dead = t3.iter().any(|(w, _)| w.names.get(&n).map_or(false, |x| dying.contains(&x.0)));
                            if in_all_unknown && !direct_dead {
                                match visit(&m, &name(n)).await? {
                                    Ok(None) => {}
                                    o => {
                                        return Err(format!(
                                            "at rest after op {i}: {:?} has no site running, but a visit is answered {o:?}",
                                            name(n)
                                        ))
                                    }
                                }
                            }
                        }
                        collecting = false;
                        tagged = t3;
                        if *ms > 0 {
                            pass(*ms).await;
                            // away from expiries and collections
                            for _ in 0..200 {
                                let now = clock.ms();
                                let period = c.gc * 1000;
                                let near_gc = phases.iter().any(|p| {
                                    let x = (now + period - p % period) % period;
                                    x < 2 * SLACK || period - x < 2 * SLACK
                                });
                                let near = tagged.iter().any(|(w, _)| w.visits.values().flatten().any(|d| d.abs_diff(now) <= SLACK));
                                if !near && !(near_gc && c.gc < NEVER) {
                                    break;
                                }
                                pass(2 * SLACK + 1).await;
                            }
                            let now = clock.ms();
                            let mut t2 = BTreeSet::new();
                            for (mut w, t) in tagged {
                                for v in w.visits.values_mut() {
                                    v.retain(|d| *d > now);
                                }
                                for v in close([w].into(), &dying, c.gc < NEVER || true) {
                                    t2.insert((v, t.clone()));
                                }
                            }
                            tagged = t2;
                        }
                    }
                }
            }
            // collections still happen
            if c.gc < NEVER {
                add(&m, "probe", mcaptcha(&ladder, 1)).await?;
                get_site(&m, "probe").await?;
                pass(c.gc * 1000 + 2000).await;
                settle(20).await;
                if get_site(&m, "probe").await?.is_some() {
                    return Err("an idle, accessed site outlives a whole collection period: collections have stopped".into());
                }
            }
            add(&m, "probe2", mcaptcha(&ladder, 1)).await?;
            get_site(&m, "probe2").await?;
            // names of sites that were stopped directly: the look-up counts as their access
            let mut stopped = vec![];
            for n in 0..3u8 {
                if get_site(&m, &name(n)).await?.map_or(false, |a| !a.connected()) {
                    stopped.push(name(n));
                    obs.label("stopped-at-the-end");
                }
            }
            ask("collection", m.send(CleanUp)).await?.map_err(|e| format!("collection: {e}"))?;
            settle(60).await;
            if get_site(&m, "probe2").await?.is_some() {
                return Err("a requested collection leaves an idle, accessed site alone".into());
            }
            for n in stopped {
                if get_site(&m, &n).await?.is_some() {
                    return Err(format!("{n:?} still leads to a stopped site after a collection"));
                }
            }
            let _ = worlds;
            Ok(())
        })
    }
}

// ---- P12 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12 {
    ladders: Vec<Ladder>,
    /// (name, ladder, duration, visits at which ms) in the first manager
    sites: Vec<(u16, u16, u64, Vec<(u64, u16)>)>,
    /// time of the snapshot after the last visit
    wait: u64,
    serialise: bool,
    /// restore into: 0 a fresh manager, 1 one where some of the sites are registered, 2 the same manager
    target: u16,
    /// (name, ladder, duration, visits just before the restore, gap before the restore)
    there: Vec<(u16, u16, u64, u16)>,
    there_gap: u64,
    /// stop this site's actor before the snapshot: it is not running any more
    stopped: Option<u16>,
    /// stop it after the snapshot instead
    stop_late: bool,
    /// after the restore: (gap, name, visits)
    after: Vec<(u64, u16, u16)>,
    /// restore once more at the end, after this gap
    again: Option<u64>,
}
pub struct P12;

impl Prop for P12 {
    type Case = C12;
    const ID: &'static str = "P12";
    const RULE: &'static str = "a site with visitors is restored and later visits to it or the passing of its duration are observed";
    const QUICK: u32 = 240_000;
    const THOROUGH: u32 = 8_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C12> {
        let make = |n: u16, few: std::ops::Range<usize>, big: u16, with_far: u32| {
            let n = 0..n;
            // no days-long walks next to far durations
            let dur = if with_far > 0 {
                prop_oneof![2 => 1..20u64, with_far => far()].boxed()
            } else {
                prop_oneof![12 => 1..20u64, 1 => 20..2_000_000u64].boxed()
            };
            let many = prop_oneof![300 => 1..6u16, big as u32 => 100..1_000u16];
            let site = (n.clone(), 0..4u16, dur, proptest::collection::vec((prop_oneof![0..500u64, 0..15_000u64], many), 0..5));
            (
                ladders(),
                proptest::collection::vec(site, few),
                prop_oneof![Just(0u64), 0..20_000u64],
                any::<bool>(),
                0..3u16,
                proptest::collection::vec((n.clone(), 0..4u16, 1..20u64, 0..6u16), 0..4),
                prop_oneof![Just(0u64), 0..20_000u64],
                (proptest::option::weighted(0.25, n.clone()), any::<bool>()),
                proptest::collection::vec((prop_oneof![0..1000u64, 0..20_000u64], n, 1..5u16), 0..8),
                proptest::option::weighted(0.3, prop_oneof![0..100u64, 0..20_000u64]),
            )
                .prop_map(|(ladders, sites, wait, serialise, target, there, there_gap, (stopped, stop_late), after, again)| C12 {
                    ladders, sites, wait, serialise, target, there, there_gap, stopped, stop_late, after, again,
                })
        };
        prop_oneof![2_500 => make(4, 0..5, 1, 0), 200 => make(4, 1..5, 1, 1), 1 => make(120, 20..90, 0, 0), 1 => make(700, 90..900, 0, 0)].boxed()
    }
    fn run(c: &C12, obs: &mut Obs) -> R {
        vt::run(async {
            let clock = Clock::start();
            let m1 = Master::new(NEVER).start();
            let lad = |i: u16| &c.ladders[i as usize % c.ladders.len()];
            async fn avoid(sites: &mut BTreeMap<u16, Site>, clock: &Clock) {
                while sites.values().any(|s| s.near_deadline(clock.ms(), SLACK)) {
                    pass(2 * SLACK + 1).await;
                }
                for s in sites.values_mut() {
                    s.expire(clock.ms());
                }
            }
            async fn check(m: &M, sites: &BTreeMap<u16, Site>, what: &str) -> Result<BTreeMap<String, MCaptcha>, String> {
                let snap = snapshot(m).await.map_err(|e| format!("{what}: {e}"))?;
                let got: BTreeSet<_> = snap.keys().cloned().collect();
                let want: BTreeSet<_> = sites.keys().map(|k| name(*k)).collect();
                if got != want {
                    return Err(format!("{what}: sites {got:?} expected {want:?}"));
                }
                for (k, s) in sites {
                    compare(&format!("{what}: site {:?}", name(*k)), &snap[&name(*k)], s)?;
                }
                Ok(snap)
            }
            let mut a: BTreeMap<u16, Site> = BTreeMap::new();
            for (n, l, d, vs) in &c.sites {
                avoid(&mut a, &clock).await;
                add(&m1, &name(*n), mcaptcha(lad(*l), *d)).await?;
                a.insert(*n, Site::new(lad(*l), *d));
                for (g, k) in vs {
                    pass(*g).await;
                    avoid(&mut a, &clock).await;
                    for _ in 0..*k {
                        match visit(&m1, &name(*n)).await? {
                            Ok(Some(_)) => {}
                            o => return Err(format!("visit answered {o:?}")),
                        }
                        a.get_mut(n).unwrap().visit(clock.ms());
                    }
                }
            }
            pass(c.wait).await;
            avoid(&mut a, &clock).await;
            if let Some(n) = c.stopped.filter(|_| !c.stop_late) {
                if a.remove(&n).is_some() {
                    let x = get_site(&m1, &name(n)).await?.ok_or("site unknown")?;
                    let _ = ask("stop", x.send(counter::Stop)).await?;
                    settle(5).await;
                    obs.label("stopped-site");
                }
            }
            // the snapshot, twice: taking it changes nothing
            check(&m1, &a, "first snapshot").await?;
            let mut data = check(&m1, &a, "snapshot").await?;
            if c.serialise {
                let text = serde_json::to_string(&data).map_err(|e| e.to_string())?;
                data = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                obs.label("serialised");
            }
            let kept: BTreeMap<u16, Site> = a.clone();
            if let Some(n) = c.stopped.filter(|_| c.stop_late) {
                if a.remove(&n).is_some() {
                    let x = get_site(&m1, &name(n)).await?.ok_or("site unknown")?;
                    let _ = ask("stop", x.send(counter::Stop)).await?;
                    settle(5).await;
                    obs.label("stopped-after-snapshot");
                }
            }
            // where it is restored
            let (m2, mut b) = match c.target {
                2 => {
                    obs.label("same-manager");
                    // with more visits in between
                    for (n, _, _, k) in &c.there {
                        if a.contains_key(n) {
                            for _ in 0..*k {
                                let _ = visit(&m1, &name(*n)).await?;
                                a.get_mut(n).unwrap().visit(clock.ms());
                            }
                        }
                    }
                    (m1.clone(), a.clone())
                }
                t => {
                    let m2 = Master::new(NEVER).start();
                    let mut b: BTreeMap<u16, Site> = BTreeMap::new();
                    if t == 1 {
                        for (n, l, d, k) in &c.there {
                            add(&m2, &name(*n), mcaptcha(lad(*l), *d)).await?;
                            let mut s = Site::new(lad(*l), *d);
                            for _ in 0..*k {
                                let _ = visit(&m2, &name(*n)).await?;
                                s.visit(clock.ms());
                            }
                            b.insert(*n, s);
                        }
                    }
                    obs.label(if b.is_empty() { "fresh-manager" } else { "populated-manager" });
                    (m2, b)
                }
            };
            pass(c.there_gap).await;
            avoid(&mut b, &clock).await;
            // restore
            let map: HashMap<String, MCaptcha> = data.into_iter().collect();
            unit("restore", &m2, SetInternalData { mcaptcha: map.clone() }).await?;
            settle(6).await;
            let mut had = false;
            let mut restored = |b: &mut BTreeMap<u16, Site>, obs: &mut Obs| {
                let now = clock.ms();
                for (n, s) in &kept {
                    let mut s = s.clone();
                    s.pending.clear();
                    if s.count > 0 {
                        s.pending.push_back((now.saturating_add(s.duration.saturating_mul(1000)), s.count));
                        had = true;
                    }
                    if b.get(n).map_or(false, |o| o.count > 0) {
                        obs.label("over-visited-site");
                    }
                    b.insert(*n, s);
                }
            };
            restored(&mut b, obs);
            check(&m2, &b, "after the restore").await?;
            let start = clock.ms();
            for (i, (g, n, k)) in c.after.iter().enumerate() {
                pass(*g).await;
                avoid(&mut b, &clock).await;
                let what = format!("{} ms after the restore, step {i}", clock.ms() - start);
                check(&m2, &b, &what).await?;
                if let Some(s) = b.get_mut(n) {
                    for _ in 0..*k {
                        match visit(&m2, &name(*n)).await? {
                            Ok(Some(r)) => {
                                let d = s.visit(clock.ms());
                                check_visit(&what, &r, s.duration, d)?;
                            }
                            o => return Err(format!("{what}: visit answered {o:?}")),
                        }
                    }
                }
            }
            if let Some(g) = c.again {
                pass(g).await;
                avoid(&mut b, &clock).await;
                unit("second restore", &m2, SetInternalData { mcaptcha: map.clone() }).await?;
                settle(6).await;
                restored(&mut b, obs);
                check(&m2, &b, "after the second restore").await?;
                obs.label("restored-twice");
            }
            // walk over all remaining departures, looking before and after each
            for _ in 0..60 {
                let next = match b.values().flat_map(|s| s.pending.iter().map(|p| p.0)).min() {
                    Some(d) if d < 1 << 34 => d,
                    _ => break,
                };
                let now = clock.ms();
                if next > now + 2 * SLACK {
                    pass(next - now - SLACK).await;
                    let what = format!("{} ms after the restore, before a departure", clock.ms() - start);
                    check(&m2, &b, &what).await?;
                }
                pass((next + SLACK + 1).saturating_sub(clock.ms())).await;
                avoid(&mut b, &clock).await;
                let what = format!("{} ms after the restore, after a departure", clock.ms() - start);
                check(&m2, &b, &what).await?;
            }
            obs.nontrivial = had;
            if had {
                obs.label("restored-visitors");
            }
            Ok(())
        })
    }
}
