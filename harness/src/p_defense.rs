//! P05, P06, P07, P24: pure configuration and state-machine properties.
use crate::core::{Obs, Prop, R};
use crate::gen::*;
use libmcaptcha::cache::messages as cm;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::messages as mm;
use libmcaptcha::pow::{PoWConfig, Work};
use libmcaptcha::{
    AddVisitorResult, CreateMCaptcha, Defense, DefenseBuilder, LevelBuilder, MCaptcha, MCaptchaBuilder,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

// ---- P05 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LOp {
    T(u32),
    F(u32),
    Build,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05 {
    /// (threshold, factor) in the order they are added
    levels: Vec<(u32, u32)>,
    /// build also after this many levels (the builder may be used again)
    early: Option<u8>,
    lops: Vec<LOp>,
}
pub struct P05;

fn num() -> impl Strategy<Value = u32> {
    prop_oneof![3 => 0u32..6, 2 => 0u32..2000, 1 => any::<u32>(), 1 => (u32::MAX - 3)..=u32::MAX]
}

fn check_build(b: &mut DefenseBuilder, accepted: &[(u32, u32)], obs: &mut Obs) -> R {
    let mut sorted = accepted.to_vec();
    sorted.sort();
    let zero = sorted.iter().any(|l| l.1 == 0);
    let dec = sorted.windows(2).any(|w| w[0].1 > w[1].1);
    let got = b.build();
    match got {
        Ok(d) => {
            if accepted.is_empty() || zero || dec {
                return Err(format!("ill-formed levels {accepted:?} were accepted"));
            }
            let mut walk = d.clone();
            let v: Vec<Level> = d.clone().into();
            let v: Vec<(u32, u32)> = v.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
            if v != sorted {
                return Err(format!("built levels {v:?}, given {accepted:?}"));
            }
            let c = d.current_level();
            if (c.visitor_threshold, c.difficulty_factor) != sorted[0] || d.get_difficulty() != sorted[0].1 {
                return Err(format!("a new defense starts at {c:?} with difficulty {}, lowest is {:?}", d.get_difficulty(), sorted[0]));
            }
            // the levels met one by one are the given ones
            for (i, l) in sorted.iter().enumerate() {
                let c = walk.current_level();
                if (c.visitor_threshold, c.difficulty_factor) != *l {
                    return Err(format!("level {i} is {c:?}, expected {l:?}"));
                }
                walk.tighten_up();
            }
            obs.label("accepted");
            Ok(())
        }
        Err(e) => {
            obs.label("rejected");
            let ok = match e {
                CaptchaError::LevelEmpty => accepted.is_empty(),
                CaptchaError::DifficultyFactorZero => zero,
                CaptchaError::DecreaseingDifficultyFactor => dec,
                _ => false,
            };
            if ok {
                obs.label(match e {
                    CaptchaError::LevelEmpty => "err-empty",
                    CaptchaError::DifficultyFactorZero => "err-zero",
                    _ => "err-decreasing",
                });
                Ok(())
            } else {
                Err(format!("levels {accepted:?} were refused with {e:?}"))
            }
        }
    }
}

impl Prop for P05 {
    type Case = C05;
    const ID: &'static str = "P05";
    const RULE: &'static str = "at least two levels are given";
    const QUICK: u32 = 1_500_000;
    const THOROUGH: u32 = 60_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C05> {
        let arbitrary = proptest::collection::vec((num(), num()), 0..7);
        let valid = prop_oneof![60 => wide_ladder(12), 60 => ladder(12, 30, 30, 5), 1 => wide_ladder(400)]
            .prop_flat_map(|l| Just(l).prop_shuffle());
        // valid up to one edit
        let near = (
            wide_ladder(8).prop_flat_map(|l| Just(l).prop_shuffle()),
            any::<prop::sample::Index>(),
            any::<prop::sample::Index>(),
            num(),
            0..4u8,
        )
            .prop_map(|(mut l, i, j, n, how)| {
                let i = i.index(l.len());
                let j = j.index(l.len());
                match how {
                    0 => l[i].1 = n,
                    1 => l[i].0 = n,
                    2 => l[i].0 = l[j].0,
                    _ => {
                        let f = l[i].1;
                        l[i].1 = l[j].1;
                        l[j].1 = f;
                    }
                }
                l
            });
        let lops = proptest::collection::vec(
            prop_oneof![num().prop_map(LOp::T), num().prop_map(LOp::F), Just(LOp::Build)],
            0..6,
        );
        (prop_oneof![arbitrary, valid, near], proptest::option::weighted(0.2, 0..6u8), lops)
            .prop_map(|(levels, early, lops)| C05 { levels, early, lops })
            .boxed()
    }
    fn run(c: &C05, obs: &mut Obs) -> R {
        obs.nontrivial = c.levels.len() > 1;
        // level builder
        let (mut t, mut f) = (None, None);
        let mut lb = LevelBuilder::default();
        for op in c.lops.iter().chain([LOp::Build].iter()) {
            match op {
                LOp::T(x) => {
                    lb.visitor_threshold(*x);
                    t = Some(*x);
                }
                LOp::F(x) => match lb.difficulty_factor(*x) {
                    Ok(_) if *x > 0 => f = Some(*x),
                    Err(CaptchaError::DifficultyFactorZero) if *x == 0 => {}
                    o => return Err(format!("difficulty factor {x}: {:?}", o.map(|_| ()))),
                },
                LOp::Build => match (lb.build(), t, f) {
                    (Ok(l), Some(t), Some(f)) if l.visitor_threshold == t && l.difficulty_factor == f => {
                        obs.label("level-built")
                    }
                    (Err(CaptchaError::SetVisitorThreshold), None, _) => obs.label("level-no-threshold"),
                    (Err(CaptchaError::SetDifficultyFactor), _, None) => obs.label("level-no-factor"),
                    (o, t, f) => return Err(format!("level of threshold {t:?} factor {f:?}: {o:?}")),
                },
            }
        }
        let mut b = DefenseBuilder::default();
        let mut accepted: Vec<(u32, u32)> = Vec::new();
        for (i, (t, f)) in c.levels.iter().enumerate() {
            if c.early == Some(i as u8) {
                check_build(&mut b, &accepted, obs)?;
                obs.label("builder-reused");
            }
            let dup = accepted.iter().any(|a| a.0 == *t);
            // a zero factor cannot come from the level builder, but from a literal or a deserialised level
            let l = Level { visitor_threshold: *t, difficulty_factor: *f };
            let r = b.add_level(l).map(|_| ());
            match r {
                Ok(()) if !dup => accepted.push((*t, *f)),
                Err(CaptchaError::DuplicateVisitorCount) if dup => obs.label("err-duplicate"),
                o => return Err(format!("adding {:?} to {accepted:?}: {o:?}", (t, f))),
            }
        }
        check_build(&mut b, &accepted, obs)
    }
}

// ---- P06 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06 {
    ladder: Ladder,
    /// 0 tighten 1 loosen 2 max 3 min 4 clone 5 serialise
    ops: Vec<u8>,
}
pub struct P06;
impl Prop for P06 {
    type Case = C06;
    const ID: &'static str = "P06";
    const RULE: &'static str = "at least two levels, and the moves reach both ends of the ladder";
    const QUICK: u32 = 1_200_000;
    const THOROUGH: u32 = 50_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C06> {
        (
            prop_oneof![90 => ladder(6, 50, 50, 4), 30 => wide_ladder(10), 30 => ladder(40, 50, 50, 4), 1 => wide_ladder(400)],
            proptest::collection::vec(
                prop_oneof![6 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8)],
                0..60,
            ),
        )
            .prop_map(|(ladder, ops)| C06 { ladder, ops })
            .boxed()
    }
    fn run(c: &C06, obs: &mut Obs) -> R {
        let mut d = defense(&c.ladder);
        let mut at = 0usize;
        let top = c.ladder.len() - 1;
        let (mut hi, mut lo, mut noop) = (false, false, false);
        for i in 0..=c.ops.len() {
            let want = c.ladder[at];
            let cur = *d.current_level();
            let got = (cur.visitor_threshold, cur.difficulty_factor);
            if got != want {
                return Err(format!("step {i}: current level {got:?}, the moves lead to level {at} = {want:?}"));
            }
            if d.get_difficulty() != want.1 {
                return Err(format!("step {i}: difficulty {} at level {want:?}", d.get_difficulty()));
            }
            if d.visitor_threshold() != want.0 {
                return Err(format!("step {i}: visitor threshold reported as {} at level (threshold, factor) {want:?}", d.visitor_threshold()));
            }
            hi |= at == top;
            lo |= at == 0 && i > 0;
            if i == c.ops.len() {
                break;
            }
            match c.ops[i] {
                0 => {
                    noop |= at == top;
                    d.tighten_up();
                    at = (at + 1).min(top)
                }
                1 => {
                    noop |= at == 0;
                    d.loosen_up();
                    at = at.saturating_sub(1)
                }
                2 => {
                    d.max_defense();
                    at = top
                }
                3 => {
                    d.min_defense();
                    at = 0
                }
                4 => {
                    let e = d.clone();
                    d.tighten_up(); // the original moves, the copy does not
                    d = e;
                }
                _ => {
                    let s = serde_json::to_string(&d).map_err(|e| e.to_string())?;
                    d = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                }
            }
        }
        let v: Vec<Level> = d.into();
        let v: Vec<(u32, u32)> = v.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
        if v != c.ladder {
            return Err(format!("the moves changed the levels to {v:?}"));
        }
        if noop {
            obs.label("move-at-end");
        }
        obs.nontrivial = top > 0 && hi && lo;
        Ok(())
    }
}

// ---- P07 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V {
    Visit(u16),
    Leave(u32),
    /// save and restore
    Serde,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07 {
    ladder: Ladder,
    /// start from a restored state with this count
    count: Option<u32>,
    ops: Vec<V>,
}
pub struct P07;

/// Set the visitor count of a serialised site, found by what a visit changes.
pub fn restored(l: &Ladder, duration: u64, count: u32) -> Option<MCaptcha> {
    fn leaves(v: &serde_json::Value, path: String, out: &mut Vec<(String, u64)>) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, v) in m {
                    leaves(v, format!("{path}/{k}"), out)
                }
            }
            serde_json::Value::Array(a) => {
                for (i, v) in a.iter().enumerate() {
                    leaves(v, format!("{path}/{i}"), out)
                }
            }
            serde_json::Value::Number(n) => out.push((path, n.as_u64().unwrap_or(0))),
            _ => {}
        }
    }
    let mut probe = mcaptcha(&vec![(1000, 1000)], 77);
    let mut a = vec![];
    leaves(&serde_json::to_value(&probe).ok()?, String::new(), &mut a);
    probe.add_visitor();
    let mut b = vec![];
    leaves(&serde_json::to_value(&probe).ok()?, String::new(), &mut b);
    let d: Vec<_> = a.iter().zip(&b).filter(|(x, y)| x != y).collect();
    if d.len() != 1 {
        return None;
    }
    let path = d[0].0 .0.clone();
    let mut v = serde_json::to_value(mcaptcha(l, duration)).ok()?;
    *v.pointer_mut(&path)? = count.into();
    let m: MCaptcha = serde_json::from_value(v).ok()?;
    (m.get_visitors() == count).then_some(m)
}

impl Prop for P07 {
    type Case = C07;
    const ID: &'static str = "P07";
    const RULE: &'static str = "the level a visit leads towards changes upwards and downwards in the history";
    const QUICK: u32 = 1_200_000;
    const THOROUGH: u32 = 40_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C07> {
        let op = prop_oneof![
            6 => (1u16..12).prop_map(V::Visit),
            2 => (1u16..90).prop_map(V::Visit),
            3 => (0u32..15).prop_map(V::Leave),
            2 => (0u32..150).prop_map(V::Leave),
            1 => any::<u32>().prop_map(V::Leave),
            1 => Just(V::Serde),
        ];
        (
            prop_oneof![4 => ladder(6, 12, 10, 9), 1 => ladder(20, 6, 6, 3), 1 => ladder(3, 60, 60, 9), 1 => wide_ladder(5)],
            proptest::option::weighted(0.2, prop_oneof![(u32::MAX - 20)..=u32::MAX, any::<u32>(), 0u32..200]),
            proptest::collection::vec(op, 1..30),
        )
            .prop_map(|(ladder, count, ops)| C07 { ladder, count, ops })
            .boxed()
    }
    fn run(c: &C07, obs: &mut Obs) -> R {
        let mut m = mcaptcha(&c.ladder, 30);
        let mut s = Site::new(&c.ladder, 30);
        if let Some(n) = c.count {
            if let Some(r) = restored(&c.ladder, 30, n) {
                m = r;
                s.count = n;
                obs.label("restored");
            }
        }
        let (mut up, mut down) = (false, false);
        for (i, op) in c.ops.iter().enumerate() {
            let n = match op {
                V::Visit(n) => *n,
                _ => 1,
            };
            for k in 0..n {
                let before = s.level;
                let d0 = m.get_difficulty();
                match op {
                    V::Visit(_) => {
                        m.add_visitor();
                        if s.count == u32::MAX {
                            obs.label("full-count");
                        }
                        s.count = s.count.saturating_add(1);
                        s.step();
                        up |= s.level > before;
                        down |= s.level < before;
                    }
                    V::Leave(n) => {
                        m.decrement_visitor_by(*n);
                        if *n > s.count {
                            obs.label("over-removal");
                        }
                        s.count = s.count.saturating_sub(*n);
                    }
                    V::Serde => {
                        let t = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                        m = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                    }
                }
                if m.get_visitors() != s.count {
                    return Err(format!("op {i}.{k} {op:?}: count {} expected {}", m.get_visitors(), s.count));
                }
                if m.get_difficulty() != s.difficulty() {
                    return Err(format!(
                        "op {i}.{k} {op:?}: difficulty {} -> {}, expected {} (level {} of {:?}, count {})",
                        d0, m.get_difficulty(), s.difficulty(), s.level, c.ladder, s.count
                    ));
                }
                let cur = *m.get_defense().current_level();
                if (cur.visitor_threshold, cur.difficulty_factor) != c.ladder[s.level] {
                    return Err(format!("op {i}.{k} {op:?}: level {cur:?}, expected {:?}", c.ladder[s.level]));
                }
                if m.get_duration() != 30 {
                    return Err("the duration changed".into());
                }
            }
        }
        obs.nontrivial = up && down;
        if up {
            obs.label("tightened");
        }
        if down {
            obs.label("loosened");
        }
        Ok(())
    }
}

// ---- P24 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C24 {
    ladder: Ladder,
    /// builder calls: 0 set defense, 1 set duration
    sets: Vec<(bool, u64)>,
    visits: u16,
    leave: u32,
    after: u16,
    strings: (String, String, String),
    nums: (u32, u64, u64),
}
pub struct P24;

fn rt<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("serialise: {e}"))?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("deserialise {s}: {e}"))?;
    let s2 = serde_json::to_string(&y).map_err(|e| e.to_string())?;
    let (v, v2): (serde_json::Value, serde_json::Value) =
        (serde_json::from_str(&s).unwrap(), serde_json::from_str(&s2).unwrap());
    if v != v2 {
        return Err(format!("round trip changed {s} into {s2}"));
    }
    let y2: T = serde_json::from_value(v2).map_err(|e| format!("deserialise value {s}: {e}"))?;
    drop(y2);
    Ok(y)
}
fn shape<T: Serialize>(what: &str, x: &T, want: serde_json::Value) -> R {
    let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
    if v != want {
        return Err(format!("{what} is serialised as {v}, the module expects {want}"));
    }
    Ok(())
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> R {
    if a != b {
        return Err(format!("{what}: {a:?} became {b:?}"));
    }
    Ok(())
}

impl Prop for P24 {
    type Case = C24;
    const ID: &'static str = "P24";
    const RULE: &'static str = "the configuration has at least two levels and a site is built from it";
    const QUICK: u32 = 500_000;
    const THOROUGH: u32 = 15_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C24> {
        let dur = prop_oneof![4 => 1u64..100, 2 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(0u64)].boxed();
        let text = || prop_oneof![any::<String>(), (0..NAMES.len() as u8).prop_map(name)];
        (
            prop_oneof![60 => ladder(8, 12, 12, 20), 60 => wide_ladder(12), 1 => wide_ladder(300)],
            prop_oneof![3 => (dur.clone(), any::<bool>()).prop_map(|(d, o)| if o { vec![(true, 0), (false, d)] } else { vec![(false, d), (true, 0)] }), 1 => proptest::collection::vec((any::<bool>(), dur), 0..5)],
            0u16..60,
            0u32..40,
            0u16..30,
            (text(), text(), text()),
            (any::<u32>(), any::<u64>(), any::<u64>()),
        )
            .prop_map(|(ladder, sets, visits, leave, after, strings, nums)| C24 { ladder, sets, visits, leave, after, strings, nums })
            .boxed()
    }
    fn run(c: &C24, obs: &mut Obs) -> R {
        // builder
        let d: Defense = defense(&c.ladder);
        let mut b = MCaptchaBuilder::default();
        let (mut has_d, mut dur) = (false, None);
        for (is_d, n) in &c.sets {
            if *is_d {
                b.defense(d.clone());
                has_d = true
            } else {
                b.duration(*n);
                dur = Some(*n)
            }
        }
        let mut built = None;
        match (b.build(), dur, has_d) {
            (Ok(m), Some(n), true) if n > 0 => {
                eq("duration", n, m.get_duration())?;
                eq("visitors of a new site", 0, m.get_visitors())?;
                eq("difficulty of a new site", c.ladder[0].1, m.get_difficulty())?;
                if m.get_defense() != d {
                    return Err(format!("defense {d:?} became {:?}", m.get_defense()));
                }
                // the builder may be used again, for another site of the same kind or with changes
                let again = b.build().map(|m| (m.get_duration(), m.get_visitors(), m.get_defense()));
                if again != Ok((n, 0, d.clone())) {
                    return Err(format!("a second site from the same builder: {again:?}"));
                }
                let other = (n % 1000) + 1;
                let changed = b.duration(other).build().map(|m| (m.get_duration(), m.get_defense()));
                if changed != Ok((other, d.clone())) {
                    return Err(format!("a site from the same builder with duration {other}: {changed:?}"));
                }
                let mut d2 = d.clone();
                d2.max_defense();
                let changed = b.defense(d2.clone()).build().map(|m| (m.get_duration(), m.get_defense()));
                if changed != Ok((other, d2.clone())) {
                    return Err(format!("a site from the same builder with defense {d2:?}: {changed:?}"));
                }
                built = Some(m);
                obs.label("built");
            }
            (Err(CaptchaError::PleaseSetValue(what)), dur, has_d) => {
                match what.as_str() {
                    "duration" if dur.is_none() => obs.label("no-duration"),
                    "defense" if !has_d => obs.label("no-defense"),
                    o => return Err(format!("told to set {o}, duration {dur:?}, defense set: {has_d}")),
                };
            }
            (Err(CaptchaError::CaptchaDurationZero), Some(0), _) => obs.label("duration-zero"),
            (r, dur, has_d) => return Err(format!("duration {dur:?}, defense set: {has_d}: {:?}", r.map(|_| "built"))),
        }
        let levels_json: Vec<_> = c
            .ladder
            .iter()
            .map(|(t, f)| serde_json::json!({"visitor_threshold": t, "difficulty_factor": f}))
            .collect();
        if let Some(mut m) = built {
            obs.nontrivial = c.ladder.len() > 1;
            let dur = dur.unwrap();
            for _ in 0..c.visits {
                m.add_visitor();
            }
            m.decrement_visitor_by(c.leave);
            let at = *m.get_defense().current_level();
            if at != level(c.ladder[0].0, c.ladder[0].1) {
                obs.label("raised-level");
            }
            // the registration form carries configuration only
            let reg: CreateMCaptcha = m.clone().into();
            let reg = rt(&reg)?;
            eq("registered duration", dur, reg.duration)?;
            let v: Vec<(u32, u32)> = reg.levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
            eq("registered levels", c.ladder.clone(), v)?;
            shape("a registration", &reg, serde_json::json!({"levels": levels_json, "duration": dur}))?;
            // state survives, and the copy goes on as the original does
            let mut n: MCaptcha = rt(&m)?;
            let add: mm::AddSite = rt(&mm::AddSite { id: c.strings.0.clone(), mcaptcha: m.clone() })?;
            eq("AddSite.id", c.strings.0.as_str(), add.id.as_str())?;
            let int: mm::InternalData = rt(&mm::InternalData { name: c.strings.1.clone(), mcaptcha: m.clone() })?;
            eq("InternalData.name", c.strings.1.as_str(), int.name.as_str())?;
            let (mut o, mut p) = (add.mcaptcha, int.mcaptcha);
            for i in 0..=c.after {
                for x in [&n, &o, &p] {
                    eq("visitors", m.get_visitors(), x.get_visitors())?;
                    eq("difficulty", m.get_difficulty(), x.get_difficulty())?;
                    eq("duration", m.get_duration(), x.get_duration())?;
                    eq("defense", m.get_defense(), x.get_defense())?;
                }
                for x in [&mut m, &mut n, &mut o, &mut p] {
                    if i % 7 == 6 {
                        x.decrement_visitor_by(c.leave);
                    } else {
                        x.add_visitor();
                    }
                }
            }
            let r = AddVisitorResult::new(&m);
            eq("result duration", m.get_duration(), r.duration)?;
            eq("result difficulty", m.get_difficulty(), r.difficulty_factor)?;
        }
        let (s0, s1, s2) = c.strings.clone();
        let (n0, n1, n2) = c.nums;
        let r = rt(&AddVisitorResult { duration: n1, difficulty_factor: n0 })?;
        shape("a visit result", &r, serde_json::json!({"duration": n1, "difficulty_factor": n0}))?;
        let r = rt(&AddChallenge { difficulty: n0, duration: n1, challenge: s0.clone() })?;
        shape("a challenge", &r, serde_json::json!({"difficulty": n0, "duration": n1, "challenge": s0}))?;
        let r = rt(&level(n0, n0.max(1)))?;
        shape("a level", &r, serde_json::json!({"visitor_threshold": n0, "difficulty_factor": n0.max(1)}))?;
        eq("defense", d.clone(), rt(&d)?)?;
        let r = rt(&PoWConfig { string: s0.clone(), difficulty_factor: n0, salt: s1.clone() })?;
        eq("challenge config", (s0.clone(), n0, s1.clone()), (r.string, r.difficulty_factor, r.salt))?;
        let r = rt(&Work { string: s0.clone(), result: s1.clone(), nonce: n2, key: s2.clone() })?;
        eq("work", (s0.clone(), s1.clone(), n2, s2.clone()), (r.string, r.result, r.nonce, r.key))?;
        let r = rt(&cm::CachePoW { string: s0.clone(), difficulty_factor: n0, duration: n1, key: s1.clone() })?;
        eq("CachePoW", (s0.clone(), n0, n1, s1.clone()), (r.string, r.difficulty_factor, r.duration, r.key))?;
        let r = rt(&cm::CachedPoWConfig { key: s0.clone(), difficulty_factor: n0, duration: n1 })?;
        eq("CachedPoWConfig", (s0.clone(), n0, n1), (r.key.clone(), r.difficulty_factor, r.duration))?;
        // a granted token belongs to the site and lives for the duration of the challenge
        let g: cm::CacheResult = r.into();
        eq("token site and lifetime", (s0.clone(), n1), (g.key.clone(), g.duration))?;
        let r = rt(&cm::CacheResult { token: s0.clone(), key: s1.clone(), duration: n1 })?;
        eq("CacheResult", (s0.clone(), s1.clone(), n1), (r.token, r.key, r.duration))?;
        let r = rt(&cm::VerifyCaptchaResult { token: s0.clone(), key: s1.clone() })?;
        eq("VerifyCaptchaResult", (s0.clone(), s1.clone()), (r.token, r.key))?;
        let r = rt(&mm::AddVisitor(s0.clone()))?;
        eq("AddVisitor", s0.clone(), r.0)?;
        let r = rt(&mm::RemoveCaptcha(s0.clone()))?;
        eq("RemoveCaptcha", s0.clone(), r.0)?;
        let r = rt(&mm::Rename { name: s0.clone(), rename_to: s1.clone() })?;
        eq("Rename", (s0, s1), (r.name, r.rename_to))?;
        Ok(())
    }
}
