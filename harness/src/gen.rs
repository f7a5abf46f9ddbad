//! Shared generators and the reference model of the difficulty ladder.
use libmcaptcha::defense::Level;
use libmcaptcha::{Defense, DefenseBuilder, LevelBuilder, MCaptcha, MCaptchaBuilder};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

/// (visitor threshold, difficulty factor), valid: strictly ascending thresholds, factors >= 1 not decreasing
pub type Ladder = Vec<(u32, u32)>;

/// valid ladder with thresholds built from gaps below `gap`, factors from steps below `step`
pub fn ladder(max_levels: usize, gap: u32, first: u32, step: u32) -> BoxedStrategy<Ladder> {
    proptest::collection::vec((0..gap, 0..step), 1..=max_levels)
        .prop_map(move |v| {
            let mut out = Vec::new();
            let (mut t, mut f) = (0u32, 1u32);
            for (i, (g, s)) in v.into_iter().enumerate() {
                t = if i == 0 { g.min(first) } else { t + 1 + g };
                f += s;
                out.push((t, f));
            }
            out
        })
        .boxed()
}

/// arbitrary valid ladder over the full 32-bit range
pub fn wide_ladder(max_levels: usize) -> BoxedStrategy<Ladder> {
    (
        proptest::collection::btree_set(
            prop_oneof![any::<u32>(), 0u32..20, (u32::MAX - 20)..=u32::MAX],
            1..=max_levels,
        ),
        proptest::collection::vec(
            prop_oneof![1..=u32::MAX, 1u32..20, (u32::MAX - 5)..=u32::MAX],
            max_levels,
        ),
    )
        .prop_map(|(ts, mut fs)| {
            fs.truncate(ts.len());
            fs.sort_unstable();
            ts.into_iter().zip(fs).collect()
        })
        .boxed()
}

pub fn level(t: u32, f: u32) -> Level {
    LevelBuilder::default()
        .visitor_threshold(t)
        .difficulty_factor(f)
        .unwrap()
        .build()
        .unwrap()
}
pub fn defense(l: &Ladder) -> Defense {
    let mut b = DefenseBuilder::default();
    for (t, f) in l {
        b.add_level(level(*t, *f)).unwrap();
    }
    b.build().unwrap()
}
pub fn mcaptcha(l: &Ladder, duration: u64) -> MCaptcha {
    MCaptchaBuilder::default()
        .defense(defense(l))
        .duration(duration)
        .build()
        .unwrap()
}

/// names with separators, near-misses, spaces, non-ASCII
pub const NAMES: &[&str] = &[
    "a", "b", "a:b", "", "A", "a ", "example.com", "example.com:8080", "é", "a:", ":a", "b:a", "日本", "a b", "\"", "a\nb", "a\0", "mcaptcha:token:a", "a:b:c",
];
/// `n` different names: fixed odd ones, free ones, and near misses of each other
pub fn some_names(n: usize) -> BoxedStrategy<Vec<String>> {
    let base = prop_oneof![
        4 => (0..NAMES.len() as u8).prop_map(name),
        3 => "[a-z]{1,8}",
        2 => "(https?://)?[a-z]{1,6}\\.[a-z]{2,3}(:[0-9]{1,4})?(/[a-z]{0,4}){0,2}/?",
        2 => "[a-zA-Z0-9]{32}",
        1 => any::<String>().prop_map(|s| s.chars().take(12).collect()),
        1 => (1..9usize).prop_map(|k| "x".repeat((1 << k) - 1)),
    ];
    (base.clone(), proptest::collection::vec((prop_oneof![5 => (0..24u8).prop_map(Some), 4 => Just(None)], base), n - 1))
        .prop_map(|(first, rest)| {
            let mut v = vec![first];
            for (i, (m, fresh)) in rest.into_iter().enumerate() {
                let mut s = match m {
                    Some(m) => near_miss(&v[m as usize * 7 % v.len()], m, i),
                    None => fresh,
                };
                let mut k = i;
                while v.contains(&s) {
                    s.push((b'a' + (k % 26) as u8) as char);
                    k += 1;
                }
                v.push(s);
            }
            v
        })
        .prop_shuffle()
        .boxed()
}
/// a name that is easily taken for `s`
pub fn near_miss(s: &str, how: u8, salt: usize) -> String {
    let chars: Vec<char> = s.chars().collect();
    match how % 24 {
        0 => format!("{s}/"),
        1 => format!("{s}."),
        2 => format!("{s} "),
        3 => format!(" {s}"),
        4 => format!("{s}\t"),
        5 => format!("{s}\n"),
        6 => format!("{s}\0"),
        7 => format!("{s}:"),
        8 => format!("www.{s}"),
        9 => format!("https://{s}"),
        10 => s.to_uppercase(),
        11 => s.to_lowercase(),
        12 => chars.iter().rev().collect(),
        13 => chars[..chars.len().saturating_sub(1)].iter().collect(),
        14 => chars[chars.len().min(1)..].iter().collect(),
        15 => format!("{s}{s}"),
        16 => format!("{s}\u{301}"),
        17 => format!("{s}\u{200b}"),
        18 => format!("{s}{}", salt % 10),
        // the same beginning, up to the lengths fixed-size fields tend to have
        19 => format!("{s}{}{}", "y".repeat([8, 16, 32, 64, 128, 255, 256, 1024][salt % 8]), salt),
        20 => chars.iter().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect(),
        21 => s.replace(['.', ':', '/'], "_"),
        22 => chars.iter().filter(|c| c.is_alphanumeric()).collect(),
        _ => {
            let mut c = chars;
            c.sort_unstable();
            c.into_iter().collect()
        }
    }
}
pub fn name(i: impl Into<u16>) -> String {
    let i: u16 = i.into();
    match NAMES.get(i as usize) {
        Some(n) => n.to_string(),
        None => format!("site-{i}"),
    }
}
/// an address as a server may see it: several may share a prefix, differ in their port only, and so on
pub fn addresses(n: usize) -> BoxedStrategy<Vec<String>> {
    let base = prop_oneof![
        4 => (0..4u8, 0..4u8).prop_map(|(a, b)| format!("10.0.{a}.{b}")),
        2 => (0..4u8, 1..4u16).prop_map(|(a, b)| format!("10.0.0.{a}:{b}")),
        2 => (0..4u8).prop_map(|a| format!("::{a}")),
        2 => (0..4u8).prop_map(|a| format!("2001:db8::1:{a}")),
        1 => (0..4u8).prop_map(|a| format!("::ffff:10.0.0.{a}")),
        1 => (0..4u8).prop_map(|a| format!("[2001:db8::{a}]:80")),
        1 => (0..4u8, 0..4u8).prop_map(|(a, b)| format!("10.0.0.{a}, 10.0.0.{b}")),
        1 => Just("127.0.0.1".to_string()),
        1 => Just("localhost".to_string()),
        1 => Just("unknown".to_string()),
    ];
    let any_kind = (
        base.clone(),
        proptest::collection::vec((proptest::option::weighted(0.4, 0..24u8), base), n - 1),
    )
        .prop_map(|(first, rest)| {
            let mut v = vec![first];
            for (i, (m, fresh)) in rest.into_iter().enumerate() {
                let mut s = match m {
                    Some(m) => near_miss(&v[m as usize * 7 % v.len()], m, i),
                    None => fresh,
                };
                let mut k = i;
                while v.contains(&s) {
                    s.push_str(&(k % 10).to_string());
                    k += 1;
                }
                v.push(s);
            }
            v
        });
    let plain = Just((0..n).map(|i| format!("10.0.0.{i}")).collect::<Vec<_>>());
    prop_oneof![2 => plain, 3 => any_kind].boxed()
}

/// level a count belongs to: the lowest whose threshold is not exceeded, else the highest
pub fn target(l: &Ladder, count: u32) -> usize {
    l.iter().position(|(t, _)| count <= *t).unwrap_or(l.len() - 1)
}

/// reference model of one site
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Site {
    pub ladder: Ladder,
    pub duration: u64,
    pub level: usize,
    /// (deadline in ms, number of visitors leaving then)
    pub pending: VecDeque<(u64, u32)>,
    pub count: u32,
}
impl Site {
    pub fn new(ladder: &Ladder, duration: u64) -> Self {
        Site { ladder: ladder.clone(), duration, level: 0, pending: VecDeque::new(), count: 0 }
    }
    pub fn deadline(&self, now: u64) -> u64 {
        now.saturating_add(self.duration.saturating_mul(1000))
    }
    pub fn visit(&mut self, now: u64) -> u32 {
        self.count = self.count.saturating_add(1);
        let d = self.deadline(now);
        self.pending.push_back((d, 1));
        self.step();
        self.difficulty()
    }
    pub fn step(&mut self) {
        let t = target(&self.ladder, self.count);
        if t > self.level {
            self.level += 1
        } else if t < self.level {
            self.level -= 1
        }
    }
    pub fn difficulty(&self) -> u32 {
        self.ladder[self.level].1
    }
    /// drop everything due strictly before or at `now`
    pub fn expire(&mut self, now: u64) -> u32 {
        let mut gone = 0;
        let mut keep = VecDeque::new();
        for (d, n) in self.pending.drain(..) {
            if d <= now {
                self.count = self.count.saturating_sub(n);
                gone += n;
            } else {
                keep.push_back((d, n));
            }
        }
        self.pending = keep;
        gone
    }
    /// some expiry within `slack` ms of `now`
    pub fn near_deadline(&self, now: u64, slack: u64) -> bool {
        self.pending.iter().any(|(d, _)| d.abs_diff(now) <= slack)
    }
}

/// Durations (in seconds) too long to be walked through: tokio's timer wheel spans 2^36 ms, and goes wrong
/// when a timer beyond that exists and the clock leaves the wheel's first slot of 2^30 ms. Cases with such
/// a duration stay within that slot.
pub const FAR: u64 = 1 << 25;
pub fn far() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>().prop_map(|x| x.max(FAR)),
        2 => FAR..1 << 45,
        // where conversions wrap or saturate
        2 => (0..5usize, 0..40u64).prop_map(|(i, d)| [1 << 32, 1 << 31, u64::MAX / 1000, i64::MAX as u64 / 1000, 1 << 33][i] + d),
        1 => Just(u64::MAX),
    ]
    .boxed()
}
