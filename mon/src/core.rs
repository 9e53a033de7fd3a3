//! Workload generation, event accounting and verdicts shared by all monitors.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// The outcome of a monitored case: `Err` is a witnessed violation.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err(format!($($arg)+));
        }
    };
}

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in a..=b
    #[inline]
    pub fn incl(&mut self, a: usize, b: usize) -> usize {
        let n = b - a;
        if n == usize::MAX {
            return self.u64() as usize;
        }
        a + self.below(n + 1)
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    #[inline]
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h ^ v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 29)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

// ---------------------------------------------------------------- panics

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| q.get()) {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = format!("{msg} (at {loc})");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default()
}

/// Runs `f` and reports whether it panicked. The panic is an expected event.
pub fn outcome<T>(f: impl FnOnce() -> T) -> Option<T> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.ok()
}

pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    outcome(f).is_none()
}

/// Runs `f`; an unexpected panic becomes an error carrying its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

// ---------------------------------------------------------------- context

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    /// inputs tried, one or more per case
    pub inputs: u64,
    pub events: u64,
    pub rejections: u64,
    pub audits: u64,
    pub by_op: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<&'static str, u64>,
}

pub struct Ctx {
    pub rng: Rng,
    pub family: &'static str,
    pub idx: usize,
    pub thorough: bool,
    pub small: bool,
    /// long inputs
    pub wide: bool,
    pub consts: Vec<usize>,
    pub stats: Stats,
    /// digest over the observed outcomes of the running case
    pub digest: u64,
    pub trace: bool,
    pub scratch_desc: String,
}

impl Ctx {
    /// Counts `n` observed events of one kind.
    #[inline]
    pub fn ev(&mut self, op: &'static str, n: u64) {
        self.stats.events += n;
        *self.stats.by_op.entry(op).or_insert(0) += n;
    }
    /// Counts a rejected (panicking) call that the monitor expected.
    #[inline]
    pub fn rejected(&mut self, op: &'static str) {
        self.stats.rejections += 1;
        self.ev(op, 1);
    }
    #[inline]
    pub fn seen(&mut self, v: u64) {
        self.digest = mix(self.digest, v);
        if self.trace {
            eprintln!("    saw {v}");
        }
    }
    /// Marks the running case as one with this (abstract) content.
    pub fn distinct(&mut self, h: u64) {
        self.stats.inputs += 1;
        if self.stats.distinct.len() < 4_000_000 {
            self.stats.distinct.insert(mix(hash_str(self.family), h));
        }
    }
    pub fn note(&mut self, k: &'static str, n: u64) {
        *self.stats.notes.entry(k).or_insert(0) += n;
    }
    pub fn note_max(&mut self, k: &'static str, n: u64) {
        let e = self.stats.notes.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn desc(&mut self, s: impl FnOnce() -> String) {
        if self.trace || (self.stats.samples.len() < 12 && self.idx % 7 == 0) {
            let s = s();
            if self.trace {
                eprintln!("case {}:{} {}", self.family, self.idx, s);
            }
            if self.stats.samples.len() < 12 {
                self.stats.samples.push(format!("{}:{} {}", self.family, self.idx, s));
            }
        }
    }
    #[inline]
    pub fn op(&mut self, s: impl FnOnce() -> String) {
        if self.trace {
            eprintln!("op {}", s());
        }
    }

    /// Scales a workload down for interpreters.
    pub fn scale(&self, full: usize, small: usize) -> usize {
        if self.small {
            small
        } else {
            full
        }
    }

    // ---- generators

    /// Usually `max`, now and then much more.
    pub fn roomy(&mut self, max: usize) -> usize {
        if self.wide {
            max * 1400
        } else if !self.small && self.rng.chance(1, 60) {
            max * 40
        } else {
            max
        }
    }

    /// A constant mined from the sources under test, or one off it.
    pub fn mined(&mut self, max: usize) -> usize {
        for _ in 0..8 {
            if self.consts.is_empty() {
                break;
            }
            let k = self.rng.below(self.consts.len());
            let c = self.consts[k];
            let c = match self.rng.below(6) {
                0 => c.wrapping_sub(1),
                1 => c.wrapping_add(1),
                2 => c.wrapping_mul(2),
                3 => c.wrapping_add(self.rng.below(64)),
                _ => c,
            };
            if c <= max {
                return c;
            }
        }
        self.rng.incl(0, max)
    }

    /// A length in 0..=max, biased towards the borders of words and index blocks.
    pub fn len(&mut self, max: usize) -> usize {
        let near = |rng: &mut Rng, unit: usize| -> usize {
            let k = max / unit;
            let base = if k == 0 { 0 } else { rng.incl(0, k) } * unit;
            let d = rng.below(5);
            (base + d).saturating_sub(2)
        };
        let v = match self.rng.below(12) {
            0 | 1 => self.rng.incl(0, max.min(200)),
            2 => near(&mut self.rng, 64),
            3 => near(&mut self.rng, 512),
            4 => near(&mut self.rng, 4096),
            5 => near(&mut self.rng, 8192),
            6 => self.mined(max),
            7 => {
                // log-uniform
                let bits = usize::BITS - max.leading_zeros();
                let b = self.rng.below(bits as usize + 1);
                if b == 0 {
                    0
                } else {
                    self.rng.incl(1 << (b - 1), (1usize << b) - 1)
                }
            }
            _ => self.rng.incl(0, max),
        };
        v.min(max)
    }

    /// An index in 0..n, biased towards borders.
    pub fn index(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let v = match self.rng.below(8) {
            0 => 0,
            1 => n - 1,
            2 => {
                let b = (self.rng.below(n / 64 + 1)) * 64;
                (b + self.rng.below(3)).saturating_sub(1)
            }
            3 => self.mined(n - 1),
            _ => self.rng.below(n),
        };
        v.min(n - 1)
    }

    /// An index that is out of bounds for a sequence of `n` elements.
    pub fn bad_index(&mut self, n: usize) -> usize {
        let v = match self.rng.below(12) {
            0 | 1 => n,
            2 => n.saturating_add(1),
            3 => n.saturating_add(63),
            4 => n.saturating_add(64),
            5 => (n / 64 + 1).saturating_mul(64),
            6 => n.wrapping_mul(2).wrapping_add(1),
            7 => usize::MAX,
            8 => usize::MAX - self.rng.below(200),
            9 => 1 << self.rng.below(64),
            10 => n.saturating_add(self.rng.below(5000)),
            _ => self.mined(usize::MAX),
        };
        if v < n {
            n
        } else {
            v
        }
    }

    pub fn any_index(&mut self, n: usize) -> usize {
        if n > 0 && self.rng.chance(2, 3) {
            self.index(n)
        } else {
            self.bad_index(n)
        }
    }
}

// ---------------------------------------------------------------- model

/// The reference: a plain sequence of bits.
#[derive(Clone, PartialEq, Debug)]
pub struct Bits {
    pub w: Vec<u64>,
    pub n: usize,
}

impl Bits {
    pub fn zeros(n: usize) -> Self {
        Bits { w: vec![0; n / 64 + 1], n }
    }
    #[inline]
    pub fn get(&self, i: usize) -> bool {
        assert!(i < self.n);
        self.w[i / 64] >> (i % 64) & 1 == 1
    }
    #[inline]
    pub fn set(&mut self, i: usize, v: bool) {
        assert!(i < self.n);
        let m = 1u64 << (i % 64);
        if v {
            self.w[i / 64] |= m
        } else {
            self.w[i / 64] &= !m
        }
    }
    pub fn flip(&mut self, i: usize) {
        let v = self.get(i);
        self.set(i, !v)
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        (0..self.n).map(|i| self.get(i))
    }
    pub fn ones(&self) -> usize {
        self.iter().filter(|b| *b).count()
    }
    pub fn hash(&self) -> u64 {
        self.w.iter().fold(mix(7, self.n as u64), |h, w| mix(h, *w))
    }
    /// The words that hold exactly the bits of this sequence.
    pub fn words(&self) -> &[u64] {
        &self.w[..self.n.div_ceil(64)]
    }
    fn clip(&mut self) {
        let n = self.n;
        let last = n / 64;
        self.w.truncate(last + 1);
        self.w[last] &= (1u64 << (n % 64)) - 1;
    }

    pub const KINDS: usize = 20;

    /// A bit pattern of the given kind.
    pub fn pattern(kind: usize, n: usize, rng: &mut Rng) -> Self {
        let mut b = Bits::zeros(n);
        let nw = b.w.len();
        match kind % Self::KINDS {
            0 => {}
            1 => b.w.fill(!0),
            2 => b.w.fill(0x5555_5555_5555_5555),
            3 => b.w.fill(0xAAAA_AAAA_AAAA_AAAA),
            4 => b.w.iter_mut().for_each(|w| *w = rng.u64()),
            5 => {
                // sparse
                let k = rng.incl(1, 7);
                for w in b.w.iter_mut() {
                    *w = (0..k).fold(!0, |a, _| a & rng.u64());
                }
            }
            6 => {
                // dense
                let k = rng.incl(1, 7);
                for w in b.w.iter_mut() {
                    *w = (0..k).fold(0, |a, _| a | rng.u64());
                }
            }
            7 => {
                // runs
                let e = rng.incl(1, 14);
                let mean = 1 + rng.below(1 << e);
                let (mut i, mut v) = (0, rng.bool());
                while i < n {
                    let l = 1 + rng.below(2 * mean);
                    if v {
                        for j in i..(i + l).min(n) {
                            b.set(j, true);
                        }
                    }
                    i += l;
                    v = !v;
                }
            }
            8 => {
                if n > 0 {
                    let i = rng.below(n);
                    b.set(i, true)
                }
            }
            9 => {
                b.w.fill(!0);
                if n > 0 {
                    let i = rng.below(n);
                    b.w[i / 64] &= !(1 << (i % 64));
                }
            }
            10 | 11 | 12 => {
                // blockwise: empty, full, or random blocks
                let words = [1, 8, 64][kind % Self::KINDS - 10];
                let mut i = 0;
                while i < nw {
                    let t = rng.below(4);
                    for w in b.w[i..(i + words).min(nw)].iter_mut() {
                        *w = match t {
                            0 => 0,
                            1 => !0,
                            2 => rng.u64(),
                            _ => rng.u64() & rng.u64() & rng.u64(),
                        };
                    }
                    i += words;
                }
            }
            13 => {
                // only around the borders of blocks
                let unit = *rng.pick(&[64usize, 512, 4096, 8192]);
                let mut i = 0;
                while i < n + unit {
                    for j in [i.wrapping_sub(1), i] {
                        if j < n && rng.chance(3, 4) {
                            b.set(j, true);
                        }
                    }
                    i += unit;
                }
            }
            14 => {
                let p = rng.incl(1, 700);
                let o = rng.below(p);
                (o..n).step_by(p).for_each(|i| b.set(i, true));
            }
            15 => {
                // a number of ones near a multiple of the sampling rate, at one end
                let k = rng.incl(0, n / 8192 + 1) * 8192 + rng.below(3);
                let k = k.saturating_sub(1).min(n);
                let from_end = rng.bool();
                for i in 0..k {
                    b.set(if from_end { n - 1 - i } else { i }, true);
                }
            }
            16 => {
                if n > 0 {
                    b.set(0, true);
                    b.set(n - 1, true);
                }
            }
            17 => {
                // clusters of ones separated by long gaps
                let mut i = rng.below(n + 1);
                while i < n {
                    let l = rng.incl(1, 300);
                    for j in i..(i + l).min(n) {
                        b.set(j, true);
                    }
                    let e = rng.incl(6, 16);
                    i += l + rng.below(1 << e);
                }
            }
            18 => {
                // full in the first part, then empty
                let k = rng.incl(0, n);
                for i in 0..k {
                    b.set(i, true);
                }
            }
            _ => {
                // words with only their highest or lowest bit
                for w in b.w.iter_mut() {
                    *w = *rng.pick(&[1u64, 1 << 63, (1 << 63) | 1, 0, 1 << 32, 0xFFFF_FFFF]);
                }
            }
        }
        b.clip();
        b
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A range of bits as the user would write it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rg {
    pub s: std::ops::Bound<usize>,
    pub e: std::ops::Bound<usize>,
}

impl std::ops::RangeBounds<usize> for Rg {
    fn start_bound(&self) -> std::ops::Bound<&usize> {
        self.s.as_ref()
    }
    fn end_bound(&self) -> std::ops::Bound<&usize> {
        self.e.as_ref()
    }
}

impl Rg {
    /// The meaning of the range for a sequence of `n` elements, or `None` if it is invalid.
    pub fn resolve(&self, n: usize) -> Option<(usize, usize)> {
        use std::ops::Bound::*;
        let s = match self.s {
            Included(s) => s as u128,
            Excluded(s) => s as u128 + 1,
            Unbounded => 0,
        };
        let e = match self.e {
            Included(e) => e as u128 + 1,
            Excluded(e) => e as u128,
            Unbounded => n as u128,
        };
        if s <= e && e <= n as u128 {
            Some((s as usize, e as usize))
        } else {
            None
        }
    }
    /// Writes the half-open range `a..b` in one of the possible ways.
    pub fn spell(a: usize, b: usize, n: usize, how: usize) -> Self {
        use std::ops::Bound::*;
        let s = match how % 3 {
            0 => Included(a),
            1 if a > 0 => Excluded(a - 1),
            _ if a == 0 => Unbounded,
            _ => Included(a),
        };
        let e = match how / 3 % 3 {
            0 => Excluded(b),
            1 if b > 0 => Included(b - 1),
            _ if b == n => Unbounded,
            _ => Excluded(b),
        };
        Rg { s, e }
    }
}

impl Ctx {
    pub fn good_range(&mut self, n: usize) -> Rg {
        let a = if self.rng.chance(1, 6) { 0 } else { self.rng.incl(0, n) };
        let b = match self.rng.below(6) {
            0 => n,
            1 => a,
            2 => (a / 64 + 1).saturating_mul(64),
            _ => self.rng.incl(a, n),
        };
        let b = b.clamp(a, n);
        Rg::spell(a, b, n, self.rng.below(9))
    }
    pub fn bad_range(&mut self, n: usize) -> Rg {
        use std::ops::Bound::*;
        loop {
            let end = |me: &mut Self| -> std::ops::Bound<usize> {
                let v = match me.rng.below(4) {
                    0 => me.bad_index(n),
                    1 => usize::MAX,
                    _ => me.rng.incl(0, n.saturating_add(1)),
                };
                match me.rng.below(5) {
                    0 => Unbounded,
                    1 | 2 => Included(v),
                    _ => Excluded(v),
                }
            };
            let r = Rg { s: end(self), e: end(self) };
            if r.resolve(n).is_none() {
                return r;
            }
        }
    }
}
