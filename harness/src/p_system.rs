//! P01-P04, P17, P23: the whole service in memory, under virtual time.
use crate::core::{Obs, Prop, R};
use crate::gen::*;
use crate::p_master::{add, check_visit, remove, rename, snapshot, visit, M, NEVER};
use crate::vt::{self, ask, busy, pass, settle, Clock};
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::pow::{ConfigBuilder, PoWConfig, Work};
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::HashCache;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};

// ---- independent proof-of-work formula ----------------------------------------------------------
/// SHA-256 of salt, length-prefixed challenge, decimal nonce; its first 16 bytes
pub fn prefix(salt: &str, string: &str) -> Sha256 {
    let mut h = Sha256::new();
    h.update(salt.as_bytes());
    h.update((string.len() as u64).to_le_bytes());
    h.update(string.as_bytes());
    h
}
/// strings close to this one
pub const NEAR: u8 = 17;
pub fn near(t: &str, how: u8) -> String {
    let swap = |c: char| if c.is_lowercase() { c.to_uppercase().to_string() } else { c.to_lowercase().to_string() };
    let mut cs: Vec<char> = t.chars().collect();
    match how % NEAR {
        0 => format!("{t} "),
        1 => cs.into_iter().skip(1).collect(),
        2 => cs.into_iter().rev().collect(),
        3 => t.to_lowercase(),
        4 => t.to_uppercase(),
        5 => cs.into_iter().map(swap).collect(),
        6 => {
            let at = cs.iter().position(|c| c.is_alphabetic());
            cs.iter().enumerate().map(|(i, c)| if Some(i) == at { swap(*c) } else { c.to_string() }).collect()
        }
        7 => {
            cs.pop();
            cs.into_iter().collect()
        }
        8 => format!("{t}\0"),
        9 => format!(" {t}"),
        10 => format!("{t}\n"),
        11 => {
            if let Some(c) = cs.last_mut() {
                *c = if *c == 'b' { 'c' } else { 'b' };
            }
            cs.into_iter().collect()
        }
        12 => {
            if let Some(c) = cs.first_mut() {
                *c = if *c == 'b' { 'c' } else { 'b' };
            }
            cs.into_iter().collect()
        }
        13 => t.trim().to_string(),
        14 => t.repeat(2),
        15 => cs[..cs.len() / 2].iter().collect(),
        _ => format!("mcaptcha:challenge:{t}"),
    }
}
pub fn score_of(p: &Sha256, nonce: u64) -> u128 {
    let mut h = p.clone();
    h.update(nonce.to_string().as_bytes());
    let d = h.finalize();
    u128::from_be_bytes(d[..16].try_into().unwrap())
}
pub fn threshold(f: u32) -> u128 {
    u128::MAX - u128::MAX / f as u128
}
/// first nonce from `from` whose score is in [lo, hi)
pub fn find(p: &Sha256, from: u64, lo: u128, hi: Option<u128>) -> Option<(u64, u128)> {
    for n in from..from + 60_000 {
        let s = score_of(p, n);
        if s >= lo && hi.map_or(true, |h| s < h) {
            return Some((n, s));
        }
    }
    None
}
pub fn good_work(salt: &str, string: &str, key: &str, f: u32) -> Work {
    let p = prefix(salt, string);
    let (nonce, s) = find(&p, 1, threshold(f), None).expect("no proof found");
    Work { string: string.into(), result: s.to_string(), nonce, key: key.into() }
}
/// a genuine proof that misses difficulty f; none for f = 1
pub fn weak_work(salt: &str, string: &str, key: &str, f: u32) -> Option<Work> {
    if f < 2 {
        return None;
    }
    let p = prefix(salt, string);
    let (nonce, s) = find(&p, 1, threshold((f / 2).max(1)), Some(threshold(f)))?;
    Some(Work { string: string.into(), result: s.to_string(), nonce, key: key.into() })
}

// ---- the service --------------------------------------------------------------------------------
pub type Svc = System<HashCache, Master>;
pub struct Env {
    pub sys: Svc,
    pub m: M,
    pub cache: Addr<HashCache>,
    pub salt: String,
}
impl Env {
    pub fn new(salt: &str, runners: usize) -> Env {
        let m = Master::new(NEVER).start();
        let cache = HashCache::default().start();
        let sys = SystemBuilder::default()
            .master(m.clone())
            .cache(cache.clone())
            .pow(ConfigBuilder::default().salt(salt.to_string()).build().unwrap())
            .runners(runners)
            .queue_length(10_000)
            .build();
        Env { sys, m, cache, salt: salt.into() }
    }
    pub async fn issue(&self, site: &str) -> Result<Option<PoWConfig>, String> {
        let r = ask("challenge", self.sys.get_pow(site.into())).await?.map_err(|e| format!("challenge: {e:?}"))?;
        if let Some(c) = &r {
            token_shape("challenge", &c.string)?;
            if c.salt != self.salt {
                return Err(format!("challenge carries salt {:?}, the server's is {:?}", c.salt, self.salt));
            }
        }
        Ok(r)
    }
    pub async fn verify(&self, w: Work, ip: &str) -> Result<(String, u32), CaptchaError> {
        busy(self.sys.verify_pow(w, ip.into())).await
    }
    pub async fn present(&self, token: &str, key: &str) -> Result<bool, String> {
        ask(
            "token",
            self.sys.validate_verification_tokens(VerifyCaptchaResult { token: token.into(), key: key.into() }),
        )
        .await?
        .map_err(|e| format!("token: {e:?}"))
    }
    /// put a challenge in the cache directly
    pub async fn plant(&self, string: &str, key: &str, f: u32, duration: u64) -> R {
        let m = CachePoW { string: string.into(), difficulty_factor: f, duration, key: key.into() };
        let rx = ask("store challenge", self.cache.send(m)).await?.map_err(|e| format!("store: {e}"))?;
        match ask("store challenge", rx).await? {
            Ok(Ok(())) => Ok(()),
            o => Err(format!("store challenge: {o:?}")),
        }
    }
    pub async fn plant_token(&self, token: &str, key: &str, duration: u64) -> R {
        let m = CacheResult { token: token.into(), key: key.into(), duration };
        let rx = ask("store token", self.cache.send(m)).await?.map_err(|e| format!("store: {e}"))?;
        match ask("store token", rx).await? {
            Ok(Ok(())) => Ok(()),
            o => Err(format!("store token: {o:?}")),
        }
    }
}
pub fn token_shape(what: &str, s: &str) -> R {
    if s.len() != 32 || !s.bytes().all(|b| b.is_ascii_alphanumeric()) {
        return Err(format!("{what} {s:?} is not 32 alphanumeric characters"));
    }
    Ok(())
}

fn salts() -> BoxedStrategy<String> {
    prop_oneof![4 => "[a-zA-Z0-9]{1,20}", 1 => Just("testsaltiscalculatedthisway".to_string()), 1 => any::<String>().prop_map(|s| s.chars().take(8).collect())].boxed()
}

// ---- P01 ----------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Good,
    Weak,
    Forged,
    WrongSite,
}
fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![4 => Just(Kind::Good), 1 => Just(Kind::Weak), 1 => Just(Kind::Forged), 1 => Just(Kind::WrongSite)]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O1 {
    Issue(u8),
    Submit(u8, Kind),
    /// (challenge, kind, address)
    Together(Vec<(u8, Kind, u8)>),
    /// a string that was never issued: near to challenge .0
    Unknown(u8, u8),
    /// so many thousandths of the time that may still pass with every challenge alive
    Pass(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01 {
    salt: String,
    names: Vec<String>,
    factors: Vec<u32>,
    /// seconds
    durations: Vec<u64>,
    runners: u8,
    ops: Vec<O1>,
    /// so many other challenges are waiting to be redeemed
    crowd: u16,
}
pub struct P01;

pub fn make_work(env_salt: &str, string: &str, key: &str, other: &str, f: u32, k: Kind) -> (Work, Option<bool>) {
    // None: wrong site
    match k {
        Kind::Good => (good_work(env_salt, string, key, f), Some(true)),
        Kind::Weak => match weak_work(env_salt, string, key, f) {
            Some(w) => (w, Some(false)),
            None => (good_work(env_salt, string, key, f), Some(true)),
        },
        Kind::Forged => {
            let mut w = good_work(env_salt, string, key, f);
            w.result = u128::MAX.to_string();
            (w, Some(false))
        }
        Kind::WrongSite => (good_work(env_salt, string, other, f), None),
    }
}
/// the verdict a live challenge gives to a submission
pub fn judge(what: &str, r: &Result<(String, u32), CaptchaError>, want: Option<bool>, f: u32) -> R {
    match (r, want) {
        (Ok((t, d)), Some(true)) if *d == f => token_shape("token", t).map_err(|e| format!("{what}: {e}")),
        (Ok((_, d)), Some(true)) => Err(format!("{what}: granted with difficulty {d}, recorded is {f}")),
        (Err(CaptchaError::InsuffiencientDifficulty | CaptchaError::InvalidPoW), Some(false)) => Ok(()),
        (Err(CaptchaError::MCaptchaKeyValidationFail), None) => Ok(()),
        (r, w) => Err(format!(
            "{what}: answered {r:?}, expected {}",
            match w {
                Some(true) => "a token",
                Some(false) => "a refusal of the work",
                None => "a site mismatch",
            }
        )),
    }
}

impl Prop for P01 {
    type Case = C01;
    const ID: &'static str = "P01";
    const RULE: &'static str = "some challenge is submitted at least twice";
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 3_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C01> {
        let op = prop_oneof![
            4 => (0..3u8).prop_map(O1::Issue),
            4 => (0..8u8, kind()).prop_map(|(a, b)| O1::Submit(a, b)),
            3 => proptest::collection::vec((0..8u8, kind(), 0..3u8), 2..7).prop_map(O1::Together),
            2 => (0..8u8, kind(), 2..7usize).prop_map(|(c, k, n)| O1::Together((0..n).map(|i| (c, k, i as u8)).collect())),
            1 => (0..8u8, 0..6 + NEAR).prop_map(|(a, b)| O1::Unknown(a, b)),
            1 => (0..900u16).prop_map(O1::Pass),
        ];
        (salts(), some_two(), proptest::collection::vec(1..40u32, 3), lives(), 1..4u8, proptest::collection::vec(op, 2..16), crowd())
            .prop_map(|(salt, names, factors, durations, runners, ops, crowd)| C01 { salt, names, factors, durations, runners, ops, crowd })
            .boxed()
    }
    fn run(c: &C01, obs: &mut Obs) -> R {
        vt::run(async {
            let env = Env::new(&c.salt, c.runners as usize);
            let nm = |i: u8| c.names[i as usize % c.names.len()].clone();
            for i in 0..3u8 {
                add(&env.m, &nm(i), mcaptcha(&vec![(1_000_000, c.factors[i as usize])], c.durations[i as usize])).await?;
            }
            let mut left = spare(&c.durations);
            for k in 0..c.crowd {
                env.plant(&format!("crowd{k}"), &nm((k % 3) as u8), 1, 10_000_000).await?;
            }
            // (string, site, factor, submissions so far)
            let mut chs: Vec<(String, u8, u32, u32)> = vec![];
            let ch = |k: u8, n: usize| if n == 0 { None } else { Some(k as usize % n) };
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?}");
                match op {
                    O1::Pass(p) => {
                        let ms = left * *p as u64 / 1000;
                        left -= ms;
                        pass(ms).await;
                        obs.label("time-passed");
                    }
                    O1::Issue(s) => {
                        let p = env.issue(&nm(*s)).await?.ok_or(format!("{what}: no challenge"))?;
                        if p.difficulty_factor != c.factors[*s as usize] {
                            return Err(format!("{what}: difficulty {}", p.difficulty_factor));
                        }
                        if chs.iter().any(|x| x.0 == p.string) {
                            return Err(format!("{what}: challenge {} issued twice", p.string));
                        }
                        chs.push((p.string, *s, p.difficulty_factor, 0));
                    }
                    O1::Unknown(k, how) => {
                        let base = match ch(*k, chs.len()) {
                            Some(j) => chs[j].clone(),
                            None => ("x".repeat(32), 0, 1, 0),
                        };
                        let s = match how {
                            0 => base.0[..31].to_string(),
                            1 => format!("{}x", base.0),
                            2 => base.0.to_lowercase() + " ",
                            3 => String::new(),
                            4 => base.0.chars().rev().collect::<String>() + "!",
                            5 => format!(" {}", base.0),
                            k => near(&base.0, k - 6),
                        };
                        if chs.iter().any(|c| c.0 == s) {
                            continue;
                        }
                        let w = good_work(&c.salt, &s, &nm(base.1), base.2);
                        match env.verify(w, "ip").await {
                            Err(CaptchaError::StringNotFound) => obs.label("unknown-string"),
                            o => return Err(format!("{what}: a string never issued was answered {o:?}")),
                        }
                    }
                    O1::Submit(k, kd) => {
                        if let Some(j) = ch(*k, chs.len()) {
                            let (s, site, f, n) = chs[j].clone();
                            let (w, want) = make_work(&c.salt, &s, &nm(site), &nm((site + 1) % 3), f, *kd);
                            let r = env.verify(w, &format!("ip{k}")).await;
                            if n == 0 {
                                judge(&what, &r, want, f)?;
                                obs.label(&format!("first-{kd:?}"));
                            } else {
                                obs.nontrivial = true;
                                if !matches!(r, Err(CaptchaError::StringNotFound)) {
                                    return Err(format!("{what}: submission {} of the challenge was answered {r:?}", n + 1));
                                }
                            }
                            chs[j].3 += 1;
                        }
                    }
                    O1::Together(v) => {
                        if chs.is_empty() {
                            continue;
                        }
                        let mut subs = vec![];
                        for (k, kd, ip) in v {
                            let j = *k as usize % chs.len();
                            let (s, site, f, _) = &chs[j];
                            let (w, want) = make_work(&c.salt, s, &nm(*site), &nm((site + 1) % 3), *f, *kd);
                            subs.push((j, w, want, *ip));
                        }
                        let rs = busy(futures_util::future::join_all(
                            subs.iter().map(|(_, w, _, ip)| env.sys.verify_pow(w.clone(), format!("ip{ip}"))),
                        ))
                        .await;
                        let mut per: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
                        for (i, s) in subs.iter().enumerate() {
                            per.entry(s.0).or_default().push(i);
                        }
                        let mut tokens = BTreeSet::new();
                        for (j, idx) in per {
                            let (_, _, f, n) = chs[j].clone();
                            let through: Vec<usize> = idx
                                .iter()
                                .copied()
                                .filter(|i| !matches!(rs[*i], Err(CaptchaError::StringNotFound)))
                                .collect();
                            let expect = if n == 0 { 1 } else { 0 };
                            if through.len() != expect {
                                return Err(format!(
                                    "{what}: of {} simultaneous submissions of a challenge submitted {n} times before, {} were not refused as unknown: {:?}",
                                    idx.len(), through.len(), idx.iter().map(|i| &rs[*i]).collect::<Vec<_>>()
                                ));
                            }
                            for i in through {
                                judge(&what, &rs[i], subs[i].2, f)?;
                                if let Ok((t, _)) = &rs[i] {
                                    if !tokens.insert(t.clone()) {
                                        return Err(format!("{what}: one token for two submissions"));
                                    }
                                }
                            }
                            if idx.len() > 1 || n > 0 {
                                obs.nontrivial = true;
                                obs.label("concurrent-same");
                            }
                            chs[j].3 += idx.len() as u32;
                        }
                    }
                }
            }
            // the challenges never submitted are untouched by all that
            for (s, site, f, n) in &chs {
                if *n == 0 {
                    let r = env.verify(good_work(&c.salt, s, &nm(*site), *f), "late").await;
                    judge("an untouched challenge at the end", &r, Some(true), *f)?;
                    obs.label("untouched");
                }
            }
            for k in sample_of(c.crowd) {
                let w = good_work(&c.salt, &format!("crowd{k}"), &nm((k % 3) as u8), 1);
                let r = env.verify(w.clone(), "late").await;
                judge(&format!("challenge {k} of {} waiting ones", c.crowd), &r, Some(true), 1)?;
                let r = env.verify(w, "late").await;
                if !matches!(r, Err(CaptchaError::StringNotFound)) {
                    return Err(format!("challenge {k} of {} waiting ones, submitted again: {r:?}", c.crowd));
                }
                obs.label("crowd");
            }
            Ok(())
        })
    }
}
/// now and then, many entries of no further interest
fn crowd() -> BoxedStrategy<u16> {
    prop_oneof![500 => Just(0u16), 1 => 50..600u16, 1 => 1_000..2_200u16].boxed()
}
fn sample_of(n: u16) -> Vec<u16> {
    if n == 0 {
        return vec![];
    }
    let mut v: Vec<u16> = vec![0, 1, n / 3, n / 2, n - 1];
    v.sort_unstable();
    v.dedup();
    v
}
/// how long the challenges and tokens of three sites live, in seconds
fn lives() -> BoxedStrategy<Vec<u64>> {
    proptest::collection::vec(prop_oneof![1 => 2..60u64, 2 => Just(10_000u64), 1 => 60..5_000u64, 1 => 5_000..10_000_000u64], 3).boxed()
}
/// how many milliseconds may pass with all of them alive
fn spare(lives: &[u64]) -> u64 {
    lives.iter().min().unwrap() * 1000 - 50
}
fn some_two() -> BoxedStrategy<Vec<String>> {
    some_names(3)
}

// ---- P02 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Claim {
    Honest,
    /// the library's own solver
    Library,
    /// claimed result off by this
    Off(i64),
    /// 0 "+r" 1 "0r" 2 " r" 3 "r " 4 "" 5 "x" 6 max 7 hex 8 "r." 9 "r\0" 10 threshold itself 11 one above max
    Text(u8),
    /// another nonce, the same result
    Nonce(u64),
    /// genuine score of another nonce, whatever it is
    OtherNonce(u64),
    /// genuine but too weak
    Weak,
    /// proof for the challenge under another salt
    OtherSalt(String),
    /// proof for another string
    OtherString(String),
    /// good proof, other site
    Site(String),
    WeakSite(String),
    /// the work accepted last, at the same difficulty
    Replay,
    /// a string like the challenge's, with work for that string; then the challenge itself
    Near(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S02 {
    key: String,
    /// None: issued by the service; else stored directly under this string
    string: Option<String>,
    /// difficulty; with `edge`, computed from the score of nonce `nonce` so that it just is / is not reached
    factor: u32,
    edge: Option<(u64, i8)>,
    claim: Claim,
    ip: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02 {
    salt: String,
    subs: Vec<S02>,
    runners: u8,
}
/// (salt, string, nonces): nonce k reaches some difficulty in 2^k .. 2^(k+1), found by long search once and for all
const FOUND: [(&str, &str, [u64; 32]); 3] = [
    ("testsaltiscalculatedthisway", "golden", [65538, 2, 65541, 65537, 65540, 1, 193, 65552, 65920, 360, 65725, 196957, 910, 197420, 333543, 67648, 17414, 284132, 410017, 897268, 804155, 4689418, 2513918, 45986476, 89424224, 53551230, 263059860, 363476792, 129060202, 188661602, 846955391, 14857140330]),
    ("a-salt", "0Vk3mQzR8sT1uXyWbC5dEfGhJ7KLnPqA", [1, 6, 5, 30, 86, 3, 218, 179, 425, 1820, 701, 5109, 5239, 1313, 80314, 214650, 407535, 200977, 52962, 1153689, 3753269, 244432, 10166435, 24235034, 10244476, 46589394, 104730924, 182623879, 1814950345, 43611895, 1573768201, 2547516102]),
    ("S", "example.com", [4, 1, 13, 47, 58, 3, 215, 579, 129, 1083, 65791, 65878, 5520, 16854, 144430, 25447, 553825, 380386, 85014, 672543, 484246, 3173361, 3493128, 13871089, 27661218, 239823554, 31728662, 61967993, 438737171, 1226631201, 4389147733, 233855314]),
];
/// difficulties that differ from a small one in the upper bits only
pub fn wide() -> impl Strategy<Value = u32> {
    (prop_oneof![Just(16u32), Just(24), Just(31), Just(17)], 1..256u32, 0..4u32).prop_map(|(s, k, d)| (k.checked_shl(s).unwrap_or(0) | 1 << s) + d)
}
pub struct P02;

impl Prop for P02 {
    type Case = C02;
    const ID: &'static str = "P02";
    const RULE: &'static str = "some submission differs from the honest one or its difficulty lies at the edge of its score";
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 3_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C02> {
        let text = || {
            prop_oneof![
                6 => "[a-zA-Z0-9]{0,6}",
                6 => (0..NAMES.len() as u8).prop_map(name),
                6 => any::<String>().prop_map(|s| s.chars().take(6).collect()),
                4 => "[a-zA-Z0-9]{32}",
                // equal but for the last character, up to the lengths buffers tend to have
                2 => (4..11u32, -2..3i32, "[a-c]").prop_map(|(k, d, c)| "x".repeat(((1 << k) + d) as usize) + &c),
            ]
        };
        let claim = prop_oneof![
            4 => Just(Claim::Honest),
            2 => Just(Claim::Library),
            2 => prop_oneof![Just(1i64), Just(-1), any::<i64>()].prop_map(Claim::Off),
            2 => (0..12u8).prop_map(Claim::Text),
            2 => prop_oneof![0..20u64, any::<u64>(), Just(u64::MAX)].prop_map(Claim::Nonce),
            2 => prop_oneof![0..20u64, any::<u64>(), Just(u64::MAX)].prop_map(Claim::OtherNonce),
            3 => Just(Claim::Weak),
            1 => text().prop_map(Claim::OtherSalt),
            1 => text().prop_map(Claim::OtherString),
            1 => text().prop_map(Claim::Site),
            1 => text().prop_map(Claim::WeakSite),
            1 => Just(Claim::Replay),
            2 => (0..NEAR).prop_map(Claim::Near),
        ];
        let sub = (
            text(),
            proptest::option::weighted(0.6, text()),
            prop_oneof![30 => 1..60u32, 10 => Just(1u32), 10 => 60..900u32, 1 => 900..5_000u32, 2 => (5_001..=u32::MAX), 1 => wide(), 1 => Just(u32::MAX)],
            proptest::option::weighted(0.35, (prop_oneof![0..50u64, any::<u64>()], -2..3i8)),
            claim,
            0..3u8,
        )
            .prop_map(|(key, string, factor, edge, claim, ip)| S02 { key, string, factor, edge, claim, ip });
        // proofs of difficulties that cannot be searched for here
        let found = (0..3usize, 0..32usize, -2..3i8, sub.clone(), 1..3u8).prop_map(|(which, k, delta, mut sub, runners)| {
            let (salt, string, nonces) = FOUND[which];
            sub.string = Some(string.into());
            sub.edge = Some((nonces[k], delta));
            C02 { salt: salt.into(), subs: vec![sub], runners }
        });
        let usual = (salts(), proptest::collection::vec(sub, 1..6), 1..3u8)
            .prop_map(|(salt, subs, runners)| C02 { salt, subs, runners });
        prop_oneof![30 => usual, 1 => found].boxed()
    }
    fn run(c: &C02, obs: &mut Obs) -> R {
        vt::run(async {
            let env = Env::new(&c.salt, c.runners as usize);
            let mut used: BTreeSet<String> = BTreeSet::new();
            // nonce, result, difficulty and site of the work accepted last
            let mut last: Option<(u64, String, u32, String)> = None;
            for (i, s) in c.subs.iter().enumerate() {
                let mut s = s.clone();
                if let (Claim::Replay, Some((_, _, f, k))) = (&s.claim, &last) {
                    s.factor = *f;
                    s.edge = None;
                    // mostly of the same site
                    if i % 4 != 3 {
                        s.key = k.clone();
                    }
                }
                // difficulty at the edge of a given nonce's score: largest factor it reaches, plus delta
                let (string, f, edge) = match (&s.string, s.edge) {
                    (Some(st), Some((nonce, delta))) => {
                        let sc = score_of(&prefix(&c.salt, st), nonce);
                        let gap = u128::MAX - sc;
                        let top = if gap == 0 { u32::MAX as u128 } else { (u128::MAX / gap).min(u32::MAX as u128) };
                        let mut f = top as u32;
                        // exact: largest f with threshold(f) <= score
                        while f > 1 && threshold(f) > sc {
                            f -= 1;
                        }
                        while f < u32::MAX && threshold(f + 1) <= sc {
                            f += 1;
                        }
                        let f = (f as i64 + delta as i64).clamp(1, u32::MAX as i64) as u32;
                        (Some(st.clone()), f, Some(nonce))
                    }
                    (st, _) => (st.clone(), s.factor, None),
                };
                let string = match string {
                    Some(st) => {
                        if used.contains(&st) {
                            continue;
                        }
                        env.plant(&st, &s.key, f, 1000).await?;
                        st
                    }
                    None => {
                        add(&env.m, &s.key, mcaptcha(&vec![(10, f)], 1000)).await?;
                        let p = env.issue(&s.key).await?.ok_or("no challenge")?;
                        if p.difficulty_factor != f {
                            return Err(format!("challenge difficulty {} expected {f}", p.difficulty_factor));
                        }
                        p.string
                    }
                };
                used.insert(string.clone());
                let p = prefix(&c.salt, &string);
                let (mut nonce, sc) = match edge {
                    Some(n) => (n, score_of(&p, n)),
                    // nobody has a proof for that
                    None if f > 5_000 => (1, score_of(&p, 1)),
                    None => find(&p, 1, threshold(f), None).ok_or("HARNESS: no proof")?,
                };
                let mut result = sc.to_string();
                let mut key = s.key.clone();
                let mut label = format!("{:?}", s.claim);
                label.truncate(label.find('(').unwrap_or(label.len()));
                match &s.claim {
                    Claim::Honest => {}
                    Claim::Library => {
                        if edge.is_none() && f <= 5_000 {
                            let pc = ConfigBuilder::default().salt(c.salt.clone()).build().unwrap();
                            let w = pc.prove_work(&string, f).map_err(|e| format!("solver: {e}"))?;
                            nonce = w.nonce;
                            result = w.result.clone();
                        }
                    }
                    Claim::Off(d) => result = (sc.wrapping_add(*d as i128 as u128)).to_string(),
                    Claim::Text(k) => {
                        result = match k {
                            0 => format!("+{result}"),
                            1 => format!("0{result}"),
                            2 => format!(" {result}"),
                            3 => format!("{result} "),
                            4 => String::new(),
                            5 => "x".into(),
                            6 => u128::MAX.to_string(),
                            7 => format!("{sc:x}"),
                            8 => format!("{result}."),
                            9 => format!("{result}\0"),
                            10 => threshold(f).to_string(),
                            _ => "340282366920938463463374607431768211456".into(),
                        }
                    }
                    Claim::Nonce(n) => nonce = *n,
                    Claim::OtherNonce(n) => {
                        nonce = *n;
                        result = score_of(&p, nonce).to_string();
                    }
                    Claim::Weak | Claim::WeakSite(_) => {
                        // too weak, but not far from it where that can be had
                        let lo = if f > 1000 { threshold(60) } else { 0 };
                        if let Some((n, s2)) = if f > 1 { find(&p, 1, lo, Some(threshold(f))) } else { None } {
                            nonce = n;
                            result = s2.to_string();
                        }
                        if let Claim::WeakSite(k) = &s.claim {
                            key = k.clone();
                        }
                    }
                    Claim::OtherSalt(o) => {
                        if let Some((n, s2)) = find(&prefix(o, &string), 1, threshold(f.min(900)), None) {
                            nonce = n;
                            result = s2.to_string();
                        }
                    }
                    Claim::OtherString(o) => {
                        if let Some((n, s2)) = find(&prefix(&c.salt, o), 1, threshold(f.min(900)), None) {
                            nonce = n;
                            result = s2.to_string();
                        }
                    }
                    Claim::Site(k) => key = k.clone(),
                    Claim::Near(how) => {
                        let other = near(&string, *how);
                        if !used.contains(&other) {
                            let w = good_work(&c.salt, &other, &s.key, f.min(900));
                            match env.verify(w, "ip").await {
                                Err(CaptchaError::StringNotFound) => obs.label("unknown-string"),
                                o => return Err(format!("submission {i}: {other:?} was not issued ({string:?} was) but is answered {o:?}")),
                            }
                        }
                    }
                    Claim::Replay => {
                        if let Some((n, r, _, _)) = &last {
                            nonce = *n;
                            result = r.clone();
                        }
                    }
                }
                let claimed = result.clone();
                let actual = score_of(&p, nonce);
                let genuine = result == actual.to_string();
                let enough = actual >= threshold(f);
                let want = if key != s.key { None } else { Some(genuine && enough) };
                let what = format!(
                    "submission {i} ({:?}): string {string:?} salt {:?} factor {f} nonce {nonce} result {result:?} (score {actual}, threshold {}) site {key:?} for {:?}",
                    s.claim, c.salt, threshold(f), s.key
                );
                let r = env.verify(Work { string: string.clone(), result, nonce, key }, &format!("ip{}", s.ip)).await;
                judge(&what, &r, want, f)?;
                obs.label(&label);
                obs.label(match want {
                    None => "wrong-site",
                    Some(true) => "accepted",
                    Some(false) if genuine => "too-weak",
                    Some(false) => "not-genuine",
                });
                if edge.is_some() {
                    obs.label(if f >= 65_536 { "high-edge" } else { "edge" });
                }
                obs.nontrivial |= edge.is_some() || !matches!(s.claim, Claim::Honest | Claim::Library);
                if let Ok((t, _)) = r {
                    last = Some((nonce, claimed, f, s.key.clone()));
                    // the token is good for the site
                    if !env.present(&t, &s.key).await? {
                        return Err(format!("{what}: the token granted is not confirmed for its site"));
                    }
                }
            }
            Ok(())
        })
    }
}

// ---- P03 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O3 {
    /// earn a token for a site by solving a challenge
    Earn(u8),
    /// store a token directly: (name of token, site)
    Store(u8, u8),
    Present(u8, u8),
    Together(Vec<(u8, u8)>),
    /// something that is not a token: (token, how, site)
    Unknown(u8, u8, u8),
    /// so many thousandths of the time that may still pass with every token alive
    Pass(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03 {
    names: Vec<String>,
    /// seconds
    durations: Vec<u64>,
    tokens: Vec<String>,
    ops: Vec<O3>,
    /// so many other tokens are waiting to be presented
    crowd: u16,
}
pub struct P03;

impl Prop for P03 {
    type Case = C03;
    const ID: &'static str = "P03";
    const RULE: &'static str = "a token is presented more than once or for a site it was not earned for";
    const QUICK: u32 = 200_000;
    const THOROUGH: u32 = 5_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C03> {
        let op = prop_oneof![
            4 => (0..3u8).prop_map(O3::Earn),
            2 => (0..3u8, 0..3u8).prop_map(|(a, b)| O3::Store(a, b)),
            5 => (0..8u8, 0..3u8).prop_map(|(a, b)| O3::Present(a, b)),
            4 => (0..8u8).prop_map(|a| O3::Present(a, 9)),
            2 => proptest::collection::vec((0..8u8, prop_oneof![2 => Just(9u8), 1 => 0..3u8]), 2..7).prop_map(O3::Together),
            2 => (0..8u8, 0..9 + NEAR, prop_oneof![Just(9u8), 0..3u8]).prop_map(|(a, b, c)| O3::Unknown(a, b, c)),
            1 => (0..900u16).prop_map(O3::Pass),
        ];
        (some_two(), lives(), some_two(), proptest::collection::vec(op, 2..24), crowd())
            .prop_map(|(names, durations, tokens, ops, crowd)| C03 { names, durations, tokens, ops, crowd })
            .boxed()
    }
    fn run(c: &C03, obs: &mut Obs) -> R {
        vt::run(async {
            let env = Env::new("salt", 1);
            let nm = |i: u8| c.names[i as usize % c.names.len()].clone();
            for i in 0..3u8 {
                add(&env.m, &nm(i), mcaptcha(&vec![(1_000_000, 2)], c.durations[i as usize])).await?;
            }
            let mut left = spare(&c.durations);
            for k in 0..c.crowd {
                env.plant_token(&format!("crowd{k}"), &nm((k % 3) as u8), 10_000_000).await?;
            }
            // (token, site, presented, challenge it came from)
            let mut toks: Vec<(String, u8, bool, String)> = vec![];
            let mut stored: BTreeSet<u8> = BTreeSet::new();
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {i} {op:?}");
                match op {
                    O3::Pass(p) => {
                        let ms = left * *p as u64 / 1000;
                        left -= ms;
                        pass(ms).await;
                        obs.label("time-passed");
                    }
                    O3::Earn(s) => {
                        let p = env.issue(&nm(*s)).await?.ok_or("no challenge")?;
                        let r = env.verify(good_work("salt", &p.string, &nm(*s), p.difficulty_factor), "ip").await;
                        judge(&what, &r, Some(true), 2)?;
                        let t = r.unwrap().0;
                        if toks.iter().any(|x| x.0 == t || x.3 == t) || t == p.string {
                            return Err(format!("{what}: token {t} given before"));
                        }
                        toks.push((t, *s, false, p.string));
                        obs.label("earned");
                    }
                    O3::Store(t, s) => {
                        // each string once: no promise is made for storing over an old entry
                        if stored.insert(*t) {
                            let t = c.tokens[*t as usize % c.tokens.len()].clone();
                            env.plant_token(&t, &nm(*s), c.durations[*s as usize]).await?;
                            toks.push((t, *s, false, "!".into()));
                            obs.label("stored");
                        }
                    }
                    O3::Present(k, s) => {
                        if toks.is_empty() {
                            continue;
                        }
                        let k = *k as usize % toks.len();
                        let site = if *s == 9 { toks[k].1 } else { *s };
                        let want = !toks[k].2 && site == toks[k].1;
                        let got = env.present(&toks[k].0, &nm(site)).await?;
                        if got != want {
                            return Err(format!(
                                "{what}: token {:?} of site {:?} presented for {:?}, used before: {}: answered {got}",
                                toks[k].0, nm(toks[k].1), nm(site), toks[k].2
                            ));
                        }
                        obs.label(if want { "confirmed" } else if toks[k].2 { "used-again" } else { "foreign-site" });
                        obs.nontrivial |= !want;
                        toks[k].2 = true;
                    }
                    O3::Together(v) => {
                        if toks.is_empty() {
                            continue;
                        }
                        let v: Vec<(usize, u8)> = v
                            .iter()
                            .map(|(k, s)| {
                                let k = *k as usize % toks.len();
                                (k, if *s == 9 { toks[k].1 } else { *s })
                            })
                            .collect();
                        let names: Vec<(String, String)> = v.iter().map(|(k, s)| (toks[*k].0.clone(), nm(*s))).collect();
                        let rs = futures_util::future::join_all(names.iter().map(|(t, s)| env.present(t, s))).await;
                        let mut per: BTreeMap<usize, Vec<(u8, bool)>> = BTreeMap::new();
                        for ((k, s), r) in v.iter().zip(rs) {
                            per.entry(*k).or_default().push((*s, r?));
                        }
                        for (k, l) in per {
                            let yes: Vec<_> = l.iter().filter(|x| x.1).collect();
                            let own = l.iter().filter(|x| x.0 == toks[k].1).count();
                            let foreign = l.len() - own;
                            // exactly one presentation meets the token: confirmed if it is for its own site
                            let (lo, hi) = if toks[k].2 {
                                (0, 0)
                            } else if foreign == 0 {
                                (1, 1)
                            } else if own == 0 {
                                (0, 0)
                            } else {
                                (0, 1)
                            };
                            if yes.len() < lo || yes.len() > hi || yes.iter().any(|x| x.0 != toks[k].1) {
                                return Err(format!(
                                    "{what}: token of site {} (used before: {}), presented at once for {l:?}", toks[k].1, toks[k].2
                                ));
                            }
                            if l.len() > 1 {
                                obs.nontrivial = true;
                                obs.label("concurrent");
                            }
                            toks[k].2 = true;
                        }
                    }
                    O3::Unknown(k, how, s) => {
                        let (t, site, _, chal) = if toks.is_empty() {
                            ("abc".to_string(), 0, false, "def".to_string())
                        } else {
                            toks[*k as usize % toks.len()].clone()
                        };
                        let site = if *s == 9 { site } else { *s };
                        let x = match how {
                            0 => format!("{t} "),
                            1 => t.chars().skip(1).collect(),
                            2 => t.chars().rev().collect::<String>() + "1",
                            3 => format!("{}:{t}", nm(site)),
                            4 => chal,
                            5 => "zz".into(),
                            6 => t.to_uppercase() + "_",
                            7 => format!("mcaptcha:token:{t}"),
                            8 => format!("{t}\0"),
                            k => near(&t, k - 9),
                        };
                        if toks.iter().any(|y| y.0 == x) {
                            continue;
                        }
                        if env.present(&x, &nm(site)).await? {
                            return Err(format!("{what}: {x:?} was never issued but is confirmed"));
                        }
                        obs.label("unknown");
                    }
                }
            }
            // everything not presented is still good
            for (t, s, used, _) in &toks {
                let got = env.present(t, &nm(*s)).await?;
                if got == *used {
                    return Err(format!("at the end token {t:?} of {:?}, presented before: {used}, is answered {got}", nm(*s)));
                }
            }
            for k in sample_of(c.crowd) {
                for want in [true, false] {
                    let got = env.present(&format!("crowd{k}"), &nm((k % 3) as u8)).await?;
                    if got != want {
                        return Err(format!("token {k} of {} waiting ones, confirmed before: {}, is answered {got}", c.crowd, !want));
                    }
                }
                obs.label("crowd");
            }
            Ok(())
        })
    }
}

// ---- P04 ----------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    /// right away
    Now,
    /// this many thousandths of the lifetime after the start
    Part(u16),
    /// this many ms before (negative) or after the deadline
    Edge(i32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct En {
    /// ms after the previous entry
    gap: u64,
    site: u8,
    /// through the whole service, or stored directly with the site's duration
    full: bool,
    /// when the challenge is redeemed
    redeem: When,
    /// with which proof
    kind: Kind,
    /// when the token it earns is presented
    present: When,
    foreign: bool,
    /// deleted at this time: the challenge, or (false) whatever result is stored under its string
    #[serde(default)]
    delete: Option<(When, bool)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04 {
    /// so many challenges (true) or tokens are stored besides, all at once, and all asked for before or after their deadline
    crowd: Option<(u16, bool, bool)>,
    durations: Vec<u64>,
    entries: Vec<En>,
}
pub struct P04;

/// `horizon`: how far to walk at most
fn at(start: u64, d: u64, w: When, horizon: u64) -> u64 {
    let life = d.saturating_mul(1000);
    match w {
        When::Now => start,
        When::Part(p) => {
            let x = (life as u128 * p as u128 / 1000).min(horizon as u128) as u64;
            // either answer is right at the deadline itself
            start.saturating_add(if x.abs_diff(life) < 3 { life + 3 } else { x })
        }
        When::Edge(e) => {
            let e = if e.abs() < 3 { if e < 0 { -3 } else { 3 } } else { e };
            // not before the start
            (start as i128 + life.min(horizon) as i128 + e as i128).max(start as i128) as u64
        }
    }
}

impl Prop for P04 {
    type Case = C04;
    const ID: &'static str = "P04";
    const RULE: &'static str = "an entry is looked at within 50 ms of its deadline while another entry is alive";
    const QUICK: u32 = 140_000;
    const THOROUGH: u32 = 5_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C04> {
        let when = || {
            prop_oneof![
                2 => Just(When::Now),
                3 => (0..1400u16).prop_map(When::Part),
                4 => prop_oneof![Just(-3), Just(3), -50..50i32, -2000..2000i32].prop_map(When::Edge),
            ]
        };
        let en = (
            prop_oneof![2 => Just(0u64), 2 => 0..2000u64, 2 => 0..20_000u64, 1 => Just(1000u64)],
            0..3u8,
            any::<bool>(),
            when(),
            prop_oneof![6 => Just(Kind::Good), 1 => Just(Kind::Weak), 1 => Just(Kind::WrongSite)],
            when(),
            proptest::bool::weighted(0.1),
            proptest::option::weighted(0.1, (when(), any::<bool>())),
        )
            .prop_map(|(gap, site, full, redeem, kind, present, foreign, delete)| En { gap, site, full, redeem, kind, present, foreign, delete });
        let dur = prop_oneof![12 => 1..20u64, 4 => 20..5000u64, 2 => 1_000_000..9_000_000u64, 1 => far()];
        let entries = prop_oneof![
            2_000 => proptest::collection::vec(en.clone(), 1..9),
            8 => proptest::collection::vec(en.clone(), 30..120),
            1 => (proptest::collection::vec(en, 1_000..2_600)).prop_map(|mut v| {
                // all of them alive at once
                for e in &mut v {
                    e.gap %= 2;
                    if e.redeem == When::Now {
                        e.redeem = When::Part(500)
                    }
                }
                v
            }),
        ];
        let usual = (proptest::collection::vec(dur.clone(), 3), entries)
            .prop_map(|(durations, entries)| C04 { crowd: None, durations, entries });
        let crowd = (proptest::collection::vec(dur, 3), (2_000..60_000u16, any::<bool>(), proptest::bool::weighted(0.3)))
            .prop_map(|(durations, crowd)| C04 { crowd: Some(crowd), durations, entries: vec![] });
        prop_oneof![8_000 => usual, 1 => crowd].boxed()
    }
    fn run(c: &C04, obs: &mut Obs) -> R {
        vt::run(async {
            let env = Env::new("salt", 1);
            let clock = Clock::start();
            let nm = |s: u8| format!("site{s}");
            for i in 0..3u8 {
                add(&env.m, &nm(i), mcaptcha(&vec![(1_000_000, 3)], c.durations[i as usize])).await?;
            }
            #[derive(Clone, Debug)]
            enum Ev {
                Start(usize),
                Redeem(usize, String),
                Present(usize, String),
                Delete(bool, String),
            }
            if let Some((n, challenges, late)) = c.crowd {
                obs.label("crowd");
                obs.nontrivial = true;
                let d = c.durations[0].min(9_000_000);
                let what = if challenges { "challenge" } else { "token" };
                for i in 0..n {
                    // by themselves: one at a time takes a look at every timer each time
                    let s = format!("crowd{i}");
                    if challenges {
                        env.cache.do_send(CachePoW { string: s, difficulty_factor: 3, duration: d, key: nm(0) });
                    } else {
                        env.cache.do_send(CacheResult { token: s, key: nm(0), duration: d });
                    }
                }
                env.plant("last", &nm(0), 3, d).await?;
                pass(at(0, d, When::Edge(if late { 50 } else { -50 }), 1 << 34)).await;
                let there = futures_util::future::join_all((0..n).map(|i| {
                    let s = VerifyCaptchaResult { token: format!("crowd{i}"), key: nm(0) };
                    let env = &env;
                    async move {
                        if challenges {
                            match env.cache.send(RetrivePoW(s)).await.map_err(|e| format!("{what} {i}: {e}"))?.await {
                                Ok(Ok(r)) => Ok(r.is_some()),
                                o => Err(format!("{what} {i}: {o:?}")),
                            }
                        } else {
                            env.present(&s.token, &s.key).await
                        }
                    }
                }));
                for (i, r) in ask(what, there).await?.into_iter().enumerate() {
                    let there = r?;
                    if there == late {
                        return Err(format!(
                            "{what} {i} of {n} stored at once for {d} s is {} 50 ms {} its deadline",
                            if there { "there" } else { "gone" },
                            if late { "after" } else { "before" }
                        ));
                    }
                }
            }
            // (time, sequence) -> event
            let mut q: BTreeMap<(u64, u64), Ev> = BTreeMap::new();
            let horizon = if c.durations.iter().any(|d| *d >= FAR) { 1 << 28 } else { 1 << 34 };
            let mut seq = 0u64;
            let mut t = 0;
            for (i, e) in c.entries.iter().enumerate() {
                t += e.gap;
                q.insert((t, seq), Ev::Start(i));
                seq += 1;
            }
            // deadlines of live entries
            let mut live: BTreeMap<String, u64> = BTreeMap::new();
            let mut strings = std::collections::HashSet::new();
            while let Some(((time, _), ev)) = q.pop_first() {
                let now = clock.ms();
                if time > now {
                    pass(time - now).await;
                }
                let now = clock.ms();
                live.retain(|_, d| *d > now);
                match ev {
                    Ev::Start(i) => {
                        let e = &c.entries[i];
                        let d = c.durations[e.site as usize];
                        let s = if e.full {
                            env.issue(&nm(e.site)).await?.ok_or("no challenge")?.string
                        } else {
                            let s = format!("planted{i}");
                            env.plant(&s, &nm(e.site), 3, d).await?;
                            s
                        };
                        live.insert(s.clone(), now.saturating_add(d.saturating_mul(1000)));
                        strings.insert(s.clone());
                        if let Some((w, challenge)) = e.delete {
                            q.insert((at(now, d, w, horizon), seq), Ev::Delete(challenge, s.clone()));
                            seq += 1;
                        }
                        q.insert((at(now, d, e.redeem, horizon), seq), Ev::Redeem(i, s));
                        seq += 1;
                    }
                    Ev::Redeem(i, s) => {
                        let e = &c.entries[i];
                        let d = c.durations[e.site as usize];
                        // deadline: known from the live set as stored, or passed
                        let alive = live.remove(&s);
                        let what = format!("entry {i} {e:?} redeemed at {now} ms");
                        let (w, want) = make_work("salt", &s, &nm(e.site), &nm((e.site + 1) % 3), 3, e.kind);
                        let r = env.verify(w, "ip").await;
                        match alive {
                            None => {
                                obs.label("challenge-expired");
                                if !matches!(r, Err(CaptchaError::StringNotFound)) {
                                    return Err(format!("{what}: after its deadline, but answered {r:?}"));
                                }
                            }
                            Some(dl) => {
                                judge(&format!("{what} (deadline {dl} ms)"), &r, want, 3)?;
                                if dl - now < 50 && !live.is_empty() {
                                    obs.nontrivial = true;
                                }
                            }
                        }
                        if alive.is_none() && matches!(e.redeem, When::Edge(x) if x < 50) && !live.is_empty() {
                            obs.nontrivial = true;
                        }
                        if let Ok((t, _)) = r {
                            obs.label("token");
                            live.insert(t.clone(), now.saturating_add(d.saturating_mul(1000)));
                            if let Some((w, challenge)) = e.delete {
                                q.insert((at(now, d, w, horizon), seq), Ev::Delete(!challenge, t.clone()));
                                seq += 1;
                            }
                            q.insert((at(now, d, e.present, horizon), seq), Ev::Present(i, t));
                            seq += 1;
                        }
                    }
                    Ev::Delete(challenge, s) => {
                        // challenges and tokens are different things, whatever their strings
                        let is_challenge = strings.contains(&s);
                        if is_challenge == challenge {
                            live.remove(&s);
                        }
                        obs.label("deleted");
                        let r = if challenge {
                            ask("delete challenge", env.cache.send(DeletePoW(s))).await?.map(|r| r.is_ok())
                        } else {
                            ask("delete token", env.cache.send(DeleteCaptchaResult { token: s })).await?.map(|r| r.is_ok())
                        };
                        if !matches!(r, Ok(true)) {
                            return Err(format!("deletion answered {r:?}"));
                        }
                    }
                    Ev::Present(i, t) => {
                        let e = &c.entries[i];
                        let alive = live.remove(&t);
                        let site = if e.foreign { (e.site + 1) % 3 } else { e.site };
                        let got = env.present(&t, &nm(site)).await?;
                        let want = alive.is_some() && !e.foreign;
                        if got != want {
                            return Err(format!(
                                "entry {i} {e:?}: token presented at {now} ms (deadline {alive:?}, none: passed), duration {} s, answered {got}",
                                c.durations[e.site as usize]
                            ));
                        }
                        obs.label(if alive.is_none() { "token-expired" } else { "token-alive" });
                        if !live.is_empty() && (alive.is_none() || alive.unwrap() - now < 50) {
                            obs.nontrivial = true;
                        }
                    }
                }
            }
            Ok(())
        })
    }
}

// ---- P17 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C17 {
    salt: String,
    names: Vec<String>,
    /// challenges issued / redeemed in each of the fresh services of this process
    per: u16,
    services: u8,
    threads: u8,
    procs: u8,
}
pub struct P17;

/// issue and redeem in a fresh service; (challenge, token) pairs
pub fn harvest(salt: &str, names: &[String], n: usize) -> Result<Vec<(String, String)>, String> {
    vt::run(async {
        let env = Env::new(salt, 1);
        let mut out = vec![];
        for nm in names {
            add(&env.m, nm, mcaptcha(&vec![(1_000_000, 1)], 10_000)).await?;
        }
        for i in 0..n {
            let nm = &names[i % names.len()];
            let p = env.issue(nm).await?.ok_or("no challenge")?;
            let w = good_work(salt, &p.string, nm, 1);
            let r = env.verify(w, "ip").await;
            judge("redemption", &r, Some(true), 1)?;
            out.push((p.string, r.unwrap().0));
        }
        Ok(out)
    })
}
/// the token for one fixed challenge and proof, in a fresh service
fn fixed_token() -> Result<String, String> {
    vt::run(async {
        let env = Env::new("fixed", 1);
        env.plant("fixedstring", "site", 1, 1000).await?;
        let r = env.verify(good_work("fixed", "fixedstring", "site", 1), "ip").await;
        judge("redemption", &r, Some(true), 1)?;
        Ok(r.unwrap().0)
    })
}

static SEEN: std::sync::Mutex<BTreeSet<String>> = std::sync::Mutex::new(BTreeSet::new());

pub fn strings_main(salt: &str, n: usize, names: Vec<String>) {
    match harvest(salt, &names, n) {
        Ok(v) => {
            let path = std::env::args().last().unwrap();
            let mut s = String::new();
            for (a, b) in v {
                s.push_str(&format!("{a} {b}\n"));
            }
            if let Ok(t) = fixed_token() {
                s.push_str(&format!("fixed {t}\n"));
            }
            std::fs::write(path, s).unwrap();
        }
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(1)
        }
    }
}

fn joint(what: &str, pairs: &[(&[u8], &[u8])]) -> R {
    let n = pairs.len();
    if n < 900 {
        return Ok(());
    }
    let ix = |b: u8| match b {
        b'0'..=b'9' => (b - b'0') as usize,
        b'a'..=b'z' => (b - b'a') as usize + 10,
        _ => (b - b'A') as usize + 36,
    };
    for i in 0..32 {
        for j in 0..32 {
            let mut same = 0usize;
            let mut cells = vec![false; 62 * 62];
            let mut distinct = 0usize;
            for (a, b) in pairs.iter().take(1200) {
                if a[i] == b[j] {
                    same += 1;
                }
                let k = ix(a[i]) * 62 + ix(b[j]);
                if !cells[k] {
                    cells[k] = true;
                    distinct += 1;
                }
            }
            let m = n.min(1200);
            if same > m / 62 * 6 {
                return Err(format!("{what}: position {j} of the second equals position {i} of the first in {same} of {m} cases"));
            }
            if distinct < m / 3 {
                return Err(format!("{what}: positions {i} and {j} take only {distinct} combinations in {m} cases"));
            }
        }
    }
    Ok(())
}

/// Rank of the matrix over GF(p)
fn rank(mut m: Vec<Vec<u32>>, p: u32) -> usize {
    let cols = m.first().map_or(0, |r| r.len());
    let mut rank = 0;
    for c in 0..cols {
        let Some(k) = (rank..m.len()).find(|&r| m[r][c] % p != 0) else { continue };
        m.swap(rank, k);
        // a^(p-2) is the inverse of a
        let (mut inv, mut base, mut e) = (1u32, m[rank][c] % p, p - 2);
        while e > 0 {
            if e & 1 == 1 {
                inv = inv * base % p;
            }
            base = base * base % p;
            e >>= 1;
        }
        let (top, rest) = m.split_at_mut(rank + 1);
        let pivot = &mut top[rank];
        for x in pivot.iter_mut() {
            *x = *x % p * inv % p;
        }
        for r in rest {
            let f = p - r[c] % p;
            if f != p {
                for (x, y) in r[c..].iter_mut().zip(&pivot[c..]) {
                    *x = (*x + f * y) % p;
                }
            }
        }
        rank += 1;
    }
    rank
}
/// What a check sum over such strings is made of: the place of each character in its class and the class
fn features(s: &[u8]) -> Vec<u32> {
    let mut v = vec![1];
    for b in s {
        v.extend(match b {
            b'0'..=b'9' => [(b - b'0') as u32, 1, 0],
            b'A'..=b'Z' => [(b - b'A') as u32, 0, 1],
            _ => [b.wrapping_sub(b'a') as u32, 0, 0],
        });
    }
    v
}
/// The bits of the characters and of their places in the alphabet
fn bits(s: &[u8]) -> Vec<u32> {
    let mut v = vec![1];
    for b in s {
        let (class, k) = match b {
            b'0'..=b'9' => (0, b - b'0'),
            b'A'..=b'Z' => (1, b - b'A'),
            _ => (2, b.wrapping_sub(b'a')),
        };
        for x in [*b, k + [52, 26, 0][class], k + [0, 36, 10][class], k + [52, 0, 26][class], k + [0, 10, 36][class]] {
            v.extend((0..7).map(|i| ((x >> i) & 1) as u32));
        }
    }
    v
}
/// No character of such strings follows from the others by a sum, whatever weights and alphabet it uses:
/// the characters satisfy no linear relation that random ones do not.
fn independent(what: &str, strings: &[Vec<u8>]) -> R {
    let len = strings.first().map_or(0, |s| s.len());
    if strings.len() < 3 * len + 1 + 100 || strings.iter().any(|s| s.len() != len || !s.is_ascii()) {
        return Ok(());
    }
    const A: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    // splitmix64
    let mut state = 0u64;
    let mut draw = || {
        state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        A[((z ^ (z >> 31)) % 62) as usize]
    };
    let random: Vec<Vec<u8>> = strings.iter().map(|_| (0..len).map(|_| draw()).collect()).collect();
    let n = 3 * len + 1 + 100;
    for p in [2, 3, 5, 7, 11, 13, 31, 61] {
        let got = rank(strings[..n].iter().map(|s| features(s)).collect(), p);
        let want = rank(random[..n].iter().map(|s| features(s)).collect(), p);
        if got < want {
            return Err(format!("{what}: the characters satisfy {} linear relations modulo {p}", want - got));
        }
    }
    if strings.len() >= 35 * len + 1 + 60 {
        let n = 35 * len + 1 + 60;
        let got = rank(strings[..n].iter().map(|s| bits(s)).collect(), 2);
        let want = rank(random[..n].iter().map(|s| bits(s)).collect(), 2);
        if got < want {
            return Err(format!("{what}: the bits of the characters satisfy {} linear relations", want - got));
        }
    }
    Ok(())
}
/// No position of such strings goes with another one.
fn pairwise(what: &str, strings: &[Vec<u8>]) -> R {
    let ix = |b: u8| match b {
        b'0'..=b'9' => (b - b'0') as usize,
        b'a'..=b'z' => (b - b'a') as usize + 10,
        _ => (b - b'A') as usize + 36,
    };
    let n = strings.len() as f64;
    for i in 0..32 {
        for j in 0..i {
            let mut cells = vec![0u32; 62 * 62];
            for s in strings {
                cells[ix(s[i]) * 62 + ix(s[j])] += 1;
            }
            let e = n / 3844.0;
            let x: f64 = cells.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
            // mean 3843, standard deviation 88
            if x > 3843.0 + 15.0 * 88.0 {
                return Err(format!("{what}: positions {j} and {i} depend on each other (chi square {x:.0} with 3843 degrees of freedom)"));
            }
        }
    }
    Ok(())
}

impl Prop for P17 {
    type Case = C17;
    const ID: &'static str = "P17";
    const RULE: &'static str = "every case (at least 3000 challenges and tokens from several services, threads and processes are compared)";
    const QUICK: u32 = 96;
    const THOROUGH: u32 = 3_000;
    const CASE_CPU: u64 = 200;
    fn strategy(_t: bool) -> BoxedStrategy<C17> {
        (salts(), some_two(), 900..1500u16, 1..4u8, 0..4u8, 0..4u8)
            .prop_map(|(salt, names, per, services, threads, procs)| C17 { salt, names, per, services, threads, procs })
            .boxed()
    }
    fn run(c: &C17, obs: &mut Obs) -> R {
        obs.nontrivial = true;
        let names: Vec<String> = c.names.iter().map(|n| n.replace('\0', "0")).collect();
        let mut all: Vec<Vec<(String, String)>> = vec![];
        let mut fixed: Vec<String> = vec![];
        // other processes first, side by side
        let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
        let dir = std::env::temp_dir().join(format!("mcap-p17-{}-{}", std::process::id(), c.per));
        std::fs::create_dir_all(&dir).map_err(|e| format!("HARNESS: {e}"))?;
        let mut kids = vec![];
        for k in 0..c.procs {
            let out = dir.join(format!("{k}"));
            let mut cmd = std::process::Command::new(&exe);
            cmd.arg("strings").arg(c.salt.replace('\0', "0")).arg("150");
            for n in &names {
                cmd.arg(n);
            }
            cmd.arg(&out).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            kids.push((cmd.spawn().map_err(|e| format!("HARNESS: {e}"))?, out));
        }
        let hs: Vec<_> = (0..c.threads)
            .map(|_| {
                let (s, n) = (c.salt.clone(), names.clone());
                std::thread::spawn(move || harvest(&s, &n, 100))
            })
            .collect();
        for s in 0..c.services {
            all.push(harvest(&c.salt, &names, if s == 0 { c.per as usize } else { 120 })?);
            fixed.push(fixed_token()?);
        }
        for h in hs {
            all.push(h.join().map_err(|_| "crash in a thread".to_string())??);
        }
        let mut kid_fail = None;
        for (mut k, out) in kids {
            let st = k.wait().map_err(|e| format!("HARNESS: {e}"))?;
            match std::fs::read_to_string(&out) {
                Ok(t) if st.success() => {
                    let mut v = vec![];
                    for l in t.lines() {
                        let (a, b) = l.split_once(' ').unwrap_or(("", ""));
                        if a == "fixed" {
                            fixed.push(b.into())
                        } else {
                            v.push((a.to_string(), b.to_string()))
                        }
                    }
                    all.push(v);
                }
                _ => kid_fail = Some("HARNESS: a child process failed"),
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        if let Some(e) = kid_fail {
            return Err(e.into());
        }
        if c.procs > 0 {
            obs.label("processes");
        }
        if c.threads > 0 {
            obs.label("threads");
        }
        // shape and freshness; replays start from an empty memory, so the case alone must tell
        let mut seen = BTreeSet::new();
        let mut global = SEEN.lock().unwrap();
        if global.len() > 3_000_000 {
            global.clear();
        }
        for v in &all {
            for (a, b) in v {
                for (what, s) in [("challenge", a), ("token", b)] {
                    token_shape(what, s)?;
                    if !seen.insert(s.clone()) {
                        return Err(format!("{what} {s} was handed out twice"));
                    }
                    if !crate::core::SHRINKING.load(std::sync::atomic::Ordering::SeqCst) && !global.insert(s.clone()) {
                        return Err(format!("{what} {s} was handed out twice (in two cases)"));
                    }
                }
            }
        }
        drop(global);
        for t in &fixed {
            token_shape("token", t)?;
            if !seen.insert(t.clone()) {
                return Err(format!("token {t} was handed out twice for the same work in fresh services"));
            }
        }
        obs.count("strings", seen.len() as u64);
        // every position takes all values, none too often; over challenges and tokens separately
        for (what, which) in [("challenge", 0), ("token", 1)] {
            let ss: Vec<&[u8]> = all.iter().flatten().map(|p| if which == 0 { p.0.as_bytes() } else { p.1.as_bytes() }).collect();
            let n = ss.len();
            let mut overall = [0usize; 256];
            for pos in 0..32 {
                let mut f = [0usize; 256];
                for s in &ss {
                    f[s[pos] as usize] += 1;
                    overall[s[pos] as usize] += 1;
                }
                let distinct = f.iter().filter(|x| **x > 0).count();
                // with 900 draws two missing symbols have a probability of 3e-10
                if distinct < 61 {
                    return Err(format!("position {pos} of {n} {what}s takes only {distinct} of 62 values"));
                }
                let max = *f.iter().max().unwrap();
                if max > n / 62 * 5 {
                    return Err(format!("position {pos} of {n} {what}s has one value {max} times"));
                }
            }
            // 40 percent are more than eight standard deviations
            let e = n as f64 * 32.0 / 62.0;
            for b in (0..=255u8).filter(|b| b.is_ascii_alphanumeric()) {
                let k = overall[b as usize] as f64;
                if k < e * 0.6 || k > e * 1.4 {
                    return Err(format!("the character {:?} occurs {k} times in {n} {what}s, expected about {e:.0}", b as char));
                }
            }
        }
        // the two constructors of such strings, many times
        {
            const N: usize = 6_000;
            let mut made: Vec<Vec<String>> = vec![vec![], vec![]];
            for i in 0..N {
                made[0].push(libmcaptcha::pow::PoWConfig::new(1 + (i % 9) as u32, c.salt.clone()).string);
                let m = libmcaptcha::cache::messages::CachedPoWConfig { key: "site".into(), difficulty_factor: 1, duration: 30 };
                made[1].push(CacheResult::from(m).token);
            }
            for (what, v) in ["challenge", "token"].iter().zip(&made) {
                let mut f = vec![[0u32; 256]; 32];
                for s in v {
                    token_shape(what, s)?;
                    if !seen.insert(s.clone()) {
                        return Err(format!("{what} {s} was made twice"));
                    }
                    for (p, b) in s.bytes().enumerate() {
                        f[p][b as usize] += 1;
                    }
                }
                // mean 97, standard deviation 9.8
                for (p, row) in f.iter().enumerate() {
                    for b in (0..=255u8).filter(|b| b.is_ascii_alphanumeric()) {
                        if !(15..=200).contains(&row[b as usize]) {
                            return Err(format!("{:?} is at position {p} of {} of {N} {what}s", b as char, row[b as usize]));
                        }
                    }
                }
            }
            obs.count("constructed strings", 2 * N as u64);
            for (what, v) in ["challenges", "tokens"].iter().zip(&made) {
                let v: Vec<Vec<u8>> = v.iter().map(|s| s.clone().into_bytes()).collect();
                pairwise(what, &v)?;
                // the bits take longer, so not always
                independent(what, if c.per % 3 == 0 { &v } else { &v[..500] })?;
            }
        }
        // no position of a token follows a position of its challenge, or of the value handed out before
        let first = &all[0];
        let pairs: Vec<(&[u8], &[u8])> = first.iter().map(|p| (p.0.as_bytes(), p.1.as_bytes())).collect();
        joint("a token and its challenge", &pairs)?;
        let both = |a: &str, b: &str| [a.as_bytes(), b.as_bytes()].concat();
        independent("a challenge and its token", &first.iter().map(|p| both(&p.0, &p.1)).collect::<Vec<_>>())?;
        independent("successive challenges", &first.windows(2).map(|w| both(&w[0].0, &w[1].0)).collect::<Vec<_>>())?;
        independent("successive tokens", &first.windows(2).map(|w| both(&w[0].1, &w[1].1)).collect::<Vec<_>>())?;
        let succ: Vec<(&[u8], &[u8])> = first.windows(2).map(|w| (w[0].0.as_bytes(), w[1].0.as_bytes())).collect();
        joint("successive challenges", &succ)?;
        let succ: Vec<(&[u8], &[u8])> = first.windows(2).map(|w| (w[0].1.as_bytes(), w[1].1.as_bytes())).collect();
        joint("successive tokens", &succ)?;
        let inner: Vec<(Vec<u8>, Vec<u8>)> = first
            .iter()
            .map(|p| {
                let mut r = p.0.as_bytes().to_vec();
                r.rotate_left(1);
                (p.0.as_bytes().to_vec(), r)
            })
            .collect();
        // neighbouring positions of one challenge
        let mut same = 0usize;
        let mut cells = BTreeSet::new();
        for (a, r) in &inner {
            for i in 0..31 {
                if a[i] == r[i] {
                    same += 1;
                }
                cells.insert((a[i], r[i]));
            }
        }
        if same > inner.len() * 31 / 62 * 3 || cells.len() < 3000 {
            return Err(format!("neighbouring characters of challenges depend on each other: {same} equal, {} combinations", cells.len()));
        }
        Ok(())
    }
}

/// how long a site's visits, challenges and tokens last, in seconds
pub fn spans() -> BoxedStrategy<u64> {
    prop_oneof![12 => 1..30u64, 2 => 30..3_000u64, 1 => 3_000..200_000u64, 1 => 1_000_000..9_000_000u64].boxed()
}

// ---- P23 ----------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O23 {
    Issue(u8),
    /// challenges of these sites at once
    Together(Vec<u8>),
    /// visits from elsewhere
    Visit(u8, u8),
    Redeem(u8, Kind),
    Present(u8),
    Reconfigure(u8, u8, u64),
    Rename(u8, u8),
    Remove(u8),
    Pass(u64),
    /// to so many ms around the deadline of the k-th live challenge or token
    Until(u8, i16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C23 {
    salt: String,
    names: Vec<String>,
    ladders: Vec<Ladder>,
    start: Vec<(u8, u64)>,
    ops: Vec<O23>,
}
pub struct P23;

impl Prop for P23 {
    type Case = C23;
    const ID: &'static str = "P23";
    const RULE: &'static str = "a live challenge is redeemed, or its token presented, after the difficulty, registration or name of its site changed";
    const QUICK: u32 = 120_000;
    const THOROUGH: u32 = 4_000_000;
    fn strategy(_t: bool) -> BoxedStrategy<C23> {
        let n = 0..4u8;
        let op = prop_oneof![
            6 => n.clone().prop_map(O23::Issue),
            1 => proptest::collection::vec(n.clone(), 2..6).prop_map(O23::Together),
            1 => (n.clone(), 2..6usize).prop_map(|(n, k)| O23::Together(vec![n; k])),
            3 => (n.clone(), 1..5u8).prop_map(|(a, b)| O23::Visit(a, b)),
            6 => (0..8u8, prop_oneof![5 => Just(Kind::Good), 2 => Just(Kind::Weak), 1 => Just(Kind::Forged)]).prop_map(|(a, k)| O23::Redeem(a, k)),
            4 => (0..8u8).prop_map(O23::Present),
            2 => (n.clone(), 0..4u8, spans()).prop_map(|(a, b, c)| O23::Reconfigure(a, b, c)),
            2 => (n.clone(), n.clone()).prop_map(|(a, b)| O23::Rename(a, b)),
            1 => n.prop_map(O23::Remove),
            3 => prop_oneof![0..2000u64, 0..15_000u64].prop_map(O23::Pass),
            1 => (any::<u8>(), prop_oneof![Just(-20i16), Just(20i16), -2000..2000i16]).prop_map(|(k, d)| O23::Until(k, d)),
        ];
        (
            salts(),
            some_names(4),
            proptest::collection::vec(
                prop_oneof![
                    12 => ladder(4, 3, 2, 12),
                    6 => ladder(5, 1, 1, 25),
                    1 => (ladder(3, 2, 2, 12), wide(), 1..3u32).prop_map(|(mut l, f, d)| {
                        let v = l.last().map_or(0, |l| l.0) + d;
                        l.push((v, f));
                        l
                    }),
                    1 => wide().prop_map(|f| vec![(0, f)]),
                ],
                2..4
            ),
            proptest::collection::vec((0..4u8, spans()), 2..4),
            proptest::collection::vec(op, 4..30),
        )
            .prop_map(|(salt, names, ladders, start, ops)| C23 { salt, names, ladders, start, ops })
            .boxed()
    }
    fn run(c: &C23, obs: &mut Obs) -> R {
        vt::run(async {
            let env = Env::new(&c.salt, 2);
            let clock = Clock::start();
            let nm = |i: u8| c.names[i as usize % c.names.len()].clone();
            let lad = |i: u8| &c.ladders[i as usize % c.ladders.len()];
            let mut sites: BTreeMap<u8, Site> = BTreeMap::new();
            for (i, (l, d)) in c.start.iter().enumerate() {
                add(&env.m, &nm(i as u8), mcaptcha(lad(*l), *d)).await?;
                sites.insert(i as u8, Site::new(lad(*l), *d));
            }
            struct Ch {
                string: String,
                site: u8,
                f: u32,
                duration: u64,
                deadline: u64,
                live: bool,
                changed: bool,
            }
            struct Tk {
                token: String,
                site: u8,
                deadline: u64,
                live: bool,
                changed: bool,
            }
            let mut chs: Vec<Ch> = vec![];
            let mut tks: Vec<Tk> = vec![];
            for (i, op) in c.ops.iter().enumerate() {
                if let O23::Pass(ms) = op {
                    pass(*ms).await;
                }
                if let O23::Until(k, d) = op {
                    let live: Vec<u64> = chs
                        .iter()
                        .filter(|c| c.live)
                        .map(|c| c.deadline)
                        .chain(tks.iter().filter(|t| t.live).map(|t| t.deadline))
                        .filter(|t| *t > clock.ms())
                        .collect();
                    if !live.is_empty() {
                        let to = live[*k as usize % live.len()].saturating_add_signed(*d as i64);
                        pass(to.saturating_sub(clock.ms())).await;
                        obs.label("to-a-deadline");
                    }
                }
                loop {
                    let now = clock.ms();
                    let near = sites.values().any(|s| s.near_deadline(now, 3))
                        || chs.iter().any(|c| c.live && c.deadline.abs_diff(now) <= 3)
                        || tks.iter().any(|c| c.live && c.deadline.abs_diff(now) <= 3);
                    if !near {
                        break;
                    }
                    pass(7).await;
                }
                let now = clock.ms();
                for s in sites.values_mut() {
                    s.expire(now);
                }
                let what = format!("op {i} {op:?} at {now} ms");
                let mut touch = |s: &u8| {
                    for c in chs.iter_mut().filter(|c| c.site == *s) {
                        c.changed = true;
                    }
                    for t in tks.iter_mut().filter(|t| t.site == *s) {
                        t.changed = true;
                    }
                };
                match op {
                    O23::Pass(_) | O23::Until(..) => {}
                    O23::Issue(n) => match (env.issue(&nm(*n)).await.map_err(|e| format!("{what}: {e}"))?, sites.get_mut(n)) {
                        (None, None) => obs.label("no-such-site"),
                        (Some(p), Some(s)) => {
                            let d = s.visit(now);
                            if p.difficulty_factor != d {
                                return Err(format!("{what}: challenge of difficulty {}, the site's is {d}", p.difficulty_factor));
                            }
                            chs.push(Ch {
                                string: p.string,
                                site: *n,
                                f: d,
                                duration: s.duration,
                                deadline: now + s.duration * 1000,
                                live: true,
                                changed: false,
                            });
                            obs.label("issued");
                        }
                        (p, s) => return Err(format!("{what}: challenge {p:?}, site registered: {}", s.is_some())),
                    },
                    O23::Together(v) => {
                        let names: Vec<String> = v.iter().map(|n| nm(*n)).collect();
                        let rs = futures_util::future::join_all(names.iter().map(|n| env.issue(n))).await;
                        // visits made at once may be counted in any order
                        let mut told: BTreeMap<u8, Vec<u32>> = BTreeMap::new();
                        let mut want: BTreeMap<u8, Vec<u32>> = BTreeMap::new();
                        for (n, r) in v.iter().zip(rs) {
                            match (r.map_err(|e| format!("{what}: {e}"))?, sites.get_mut(n)) {
                                (None, None) => obs.label("no-such-site"),
                                (Some(p), Some(s)) => {
                                    want.entry(*n).or_default().push(s.visit(now));
                                    told.entry(*n).or_default().push(p.difficulty_factor);
                                    chs.push(Ch {
                                        string: p.string,
                                        site: *n,
                                        f: p.difficulty_factor,
                                        duration: s.duration,
                                        deadline: now + s.duration * 1000,
                                        live: true,
                                        changed: false,
                                    });
                                    obs.label("issued-together");
                                }
                                (p, s) => return Err(format!("{what}: challenge {p:?}, site registered: {}", s.is_some())),
                            }
                        }
                        for v in told.values_mut().chain(want.values_mut()) {
                            v.sort_unstable();
                        }
                        if told != want {
                            return Err(format!("{what}: difficulties by site are {told:?}, expected {want:?}"));
                        }
                    }
                    O23::Visit(n, k) => {
                        for _ in 0..*k {
                            match (visit(&env.m, &nm(*n)).await?, sites.get_mut(n)) {
                                (Ok(None), None) => {}
                                (Ok(Some(r)), Some(s)) => {
                                    let d = s.visit(now);
                                    check_visit(&what, &r, s.duration, d)?
                                }
                                (r, _) => return Err(format!("{what}: {r:?}")),
                            }
                        }
                    }
                    O23::Redeem(k, kd) => {
                        if chs.is_empty() {
                            continue;
                        }
                        let k = *k as usize % chs.len();
                        let ch = &mut chs[k];
                        // nobody has a proof for the widest difficulties
                        let (w, want) = if ch.f > 5000 {
                            let (n, s) = find(&prefix(&c.salt, &ch.string), 1, threshold(60), Some(threshold(ch.f))).ok_or("HARNESS: no weak proof")?;
                            (Work { string: ch.string.clone(), result: s.to_string(), nonce: n, key: nm(ch.site) }, Some(false))
                        } else {
                            make_work(&c.salt, &ch.string, &nm(ch.site), "?", ch.f, *kd)
                        };
                        let r = env.verify(w, &format!("ip{k}")).await;
                        if ch.live && ch.deadline > now {
                            judge(&format!("{what} (issued with difficulty {} for {} s)", ch.f, ch.duration), &r, want, ch.f)?;
                            let now_f = sites.get(&ch.site).map(|s| s.difficulty());
                            if now_f != Some(ch.f) || ch.changed {
                                obs.nontrivial = true;
                                obs.label(if now_f.is_none() { "redeemed-after-removal" } else { "redeemed-after-change" });
                            }
                            if let Ok((t, _)) = r {
                                tks.push(Tk { token: t, site: ch.site, deadline: now + ch.duration * 1000, live: true, changed: ch.changed });
                            }
                        } else {
                            obs.label("redeemed-late");
                            if !matches!(r, Err(CaptchaError::StringNotFound)) {
                                return Err(format!("{what}: a dead challenge was answered {r:?}"));
                            }
                        }
                        ch.live = false;
                    }
                    O23::Present(k) => {
                        if tks.is_empty() {
                            continue;
                        }
                        let k = *k as usize % tks.len();
                        let t = &mut tks[k];
                        let want = t.live && t.deadline > now;
                        let got = env.present(&t.token, &nm(t.site)).await?;
                        if got != want {
                            return Err(format!("{what}: token of {:?} with deadline {} ms, unused: {}, answered {got}", nm(t.site), t.deadline, t.live));
                        }
                        if want && t.changed {
                            obs.nontrivial = true;
                            obs.label("presented-after-change");
                        }
                        t.live = false;
                    }
                    O23::Reconfigure(n, l, d) => {
                        add(&env.m, &nm(*n), mcaptcha(lad(*l), *d)).await?;
                        sites.insert(*n, Site::new(lad(*l), *d));
                        touch(n);
                    }
                    O23::Rename(a, b) => {
                        rename(&env.m, &nm(*a), &nm(*b)).await?;
                        if let Some(s) = sites.remove(a) {
                            sites.insert(*b, s);
                            touch(a);
                            touch(b);
                        }
                    }
                    O23::Remove(n) => {
                        remove(&env.m, &nm(*n)).await?;
                        sites.remove(n);
                        touch(n);
                    }
                }
                settle(3).await;
                // each challenge counted as one visit, and nothing else did
                let snap = snapshot(&env.m).await?;
                if snap.len() != sites.len() {
                    return Err(format!("{what}: {} sites, expected {}", snap.len(), sites.len()));
                }
                for (n, s) in &sites {
                    let got = snap.get(&nm(*n)).map(|m| m.get_visitors());
                    if got != Some(s.count) {
                        return Err(format!("{what}: site {:?} has {got:?} visitors, expected {}", nm(*n), s.count));
                    }
                }
            }
            Ok(())
        })
    }
}
