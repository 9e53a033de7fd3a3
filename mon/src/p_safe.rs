//! Programs that only use safe calls, with any arguments whatsoever.
//!
//! There is no model here. The verdict is what the sanitizers, the interpreter, the checks of the
//! standard library and the watching allocator observe (C01), and whether all build profiles
//! observe the same outcomes (C21).

use crate::core::*;
use crate::p_bits::{make_bulk, random_bits};
use crate::Family;
use std::cell::{Cell, RefCell};
use std::ops::{Bound, RangeBounds};
use std::rc::Rc;
use succinct_neo::bit_vec::slice::{BitSlice, Iter};
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C01", "programs", 12_000, 200_000, 24, program),
        Family::new("C01", "blocks", 1_500, 20_000, 6, blocks),
        Family::new("C01", "shapes", 4_000, 60_000, 12, shapes),
        Family::new("C01", "own_backings", 3_000, 40_000, 16, own_backings),
        Family::new("C01", "large", 40, 600, 0, large),
        Family::new("C21", "large", 40, 600, 0, large),
        Family::new("C21", "programs", 12_000, 200_000, 0, program),
        Family::new("C21", "blocks", 1_500, 20_000, 0, blocks),
        Family::new("C21", "shapes", 4_000, 60_000, 0, shapes),
        Family::new("C21", "own_backings", 3_000, 40_000, 0, own_backings),
    ]
}

/// Runs a call and records what it did.
fn call<T>(ctx: &mut Ctx, op: &'static str, f: impl FnOnce() -> T) -> Option<T> {
    let r = outcome(f);
    if r.is_none() {
        ctx.stats.rejections += 1;
        ctx.seen(0xDEAD);
    }
    ctx.ev(op, 1);
    r
}

fn saw(ctx: &mut Ctx, v: Option<impl Into<u64>>) {
    match v {
        Some(v) => {
            let v = v.into();
            ctx.seen(v)
        }
        None => ctx.seen(3),
    }
}

fn hostile(ctx: &mut Ctx, n: usize) -> usize {
    match ctx.rng.below(8) {
        0..=3 => ctx.any_index(n),
        4 => ctx.rng.incl(n.saturating_sub(2), n.saturating_add(2)),
        5 => ctx.mined(usize::MAX),
        6 => usize::MAX - ctx.rng.below(3),
        _ => ctx.rng.u64() as usize,
    }
}

fn hostile_range(ctx: &mut Ctx, n: usize) -> Rg {
    if ctx.rng.chance(2, 3) {
        ctx.good_range(n)
    } else {
        ctx.bad_range(n)
    }
}

/// A range that gives another answer each time it is asked for its bounds.
struct Fickle {
    asked: Cell<usize>,
    bounds: [Bound<usize>; 4],
}

impl RangeBounds<usize> for Fickle {
    fn start_bound(&self) -> Bound<&usize> {
        self.end_bound()
    }
    fn end_bound(&self) -> Bound<&usize> {
        let k = self.asked.get();
        self.asked.set(k + 1);
        self.bounds[k % 4].as_ref()
    }
}

fn fickle(ctx: &mut Ctx, n: usize) -> Fickle {
    let mut bound = || {
        let i = hostile(ctx, n);
        match ctx.rng.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(i),
            _ => Bound::Excluded(i),
        }
    };
    Fickle { asked: Cell::new(0), bounds: [bound(), bound(), bound(), bound()] }
}

/// Accesses to a view with any index.
fn abuse<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, times: usize) {
    let n = s.len();
    for _ in 0..times {
        let i = hostile(ctx, n);
        match ctx.rng.below(8) {
            7 => {
                let (r, q) = (fickle(ctx, n), fickle(ctx, n));
                let g = call(ctx, "fickle slice", || s.slice(r).iter().take(70).filter(|b| *b).count() as u64);
                saw(ctx, g);
                call(ctx, "fickle slice_mut", || s.slice_mut(q).flip(i));
            }
            0 => {
                let g = call(ctx, "get", || s.get_bit(i));
                saw(ctx, g)
            }
            1 => {
                let b = ctx.rng.bool();
                call(ctx, "set", || s.set_bit(i, b));
            }
            2 => {
                call(ctx, "flip", || s.flip(i));
            }
            3 => {
                let r = hostile_range(ctx, n);
                let g = call(ctx, "slice", || {
                    let t = s.slice(r);
                    (t.len() as u64).wrapping_mul(31).wrapping_add(t.iter().take(70).filter(|b| *b).count() as u64)
                });
                saw(ctx, g)
            }
            4 => {
                let r = hostile_range(ctx, n);
                let j = hostile(ctx, n);
                call(ctx, "slice_mut", || {
                    let mut t = s.slice_mut(r);
                    t.flip(j);
                    t.set(j / 2, true);
                });
            }
            5 => {
                let (j, k) = (hostile(ctx, n), hostile(ctx, n));
                call(ctx, "split_at_mut", || {
                    let (mut l, mut r) = s.split_at_mut(i);
                    let a = outcome(|| l.flip(j)).is_some();
                    let b = outcome(|| r.flip(k)).is_some();
                    let c = outcome(|| l.get(j)).is_some();
                    let (mut x, mut y) = r.split_at_mut(k % 7);
                    x.flip(0);
                    l.set(0, a);
                    y.set(0, b);
                    l.get(0) ^ c
                });
            }
            _ => {
                let g = call(ctx, "split_at", || {
                    let (l, r) = s.split_at(i);
                    l.len() as u64 ^ (r == l) as u64 ^ (l == r) as u64
                });
                saw(ctx, g)
            }
        }
    }
}

fn iterate<B: BitGet>(ctx: &mut Ctx, mut it: Iter<B>) {
    let len = call(ctx, "len", || it.len());
    saw(ctx, len.map(|l| l as u64));
    for _ in 0..ctx.scale(80, 10) {
        match call(ctx, "next", || it.next()) {
            Some(Some(b)) => ctx.seen(b as u64),
            Some(None) => {
                ctx.seen(2);
                break;
            }
            None => break,
        }
    }
    let k = ctx.rng.below(100);
    let g = call(ctx, "nth", || it.nth(k).map(|b| b as u64).unwrap_or(2));
    saw(ctx, g);
    let len = call(ctx, "len", || it.len());
    saw(ctx, len.map(|l| l as u64));
    let h = call(ctx, "size_hint", || it.size_hint());
    saw(ctx, h.map(|(a, b)| mix(a as u64, b.map(|b| b as u64).unwrap_or(7))));
}

fn rank_select(ctx: &mut Ctx, v: &BitVec) {
    fn go<S: SelectStrategy>(ctx: &mut Ctx, v: &BitVec) {
        let Some(f) = call(ctx, "structure", || FlatPopcount::<S>::new(v)) else { return };
        let n = f.len();
        ctx.seen(n as u64);
        for _ in 0..ctx.scale(30, 8) {
            let i = hostile(ctx, n);
            let g = call(ctx, "rank", || f.rank::<true>(i));
            saw(ctx, g.map(|x| x as u64));
            let g = call(ctx, "rank_dyn", || f.rank_dyn(i, false));
            saw(ctx, g.map(|x| x as u64));
            let g = call(ctx, "select", || f.select(i));
            saw(ctx, g.map(|x| x.map(|p| p as u64).unwrap_or(u64::MAX)));
        }
        // every one of the last few, and beyond
        let ones = call(ctx, "rank", || f.rank::<true>(n)).unwrap_or(0);
        for k in ones.saturating_sub(3)..ones + 3 {
            let g = call(ctx, "select", || f.select(k));
            saw(ctx, g.map(|x| x.map(|p| p as u64).unwrap_or(u64::MAX)));
        }
        for i in n.saturating_sub(2)..n + 3 {
            let g = call(ctx, "rank", || f.rank::<true>(i));
            saw(ctx, g.map(|x| x as u64));
        }
    }
    if ctx.rng.bool() {
        go::<LinearSearch>(ctx, v)
    } else {
        go::<BinarySearch>(ctx, v)
    }
    // only compiled for machines with these features, and not part of the common outcomes
    #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
    {
        let (d, r) = (ctx.digest, ctx.rng.clone());
        go::<succinct_neo::rank_select::flat_popcount::SimdSearch>(ctx, v);
        ctx.digest = d;
        ctx.rng = r;
    }
}

fn raw_box(ctx: &mut Ctx, max: usize) -> Box<[usize]> {
    let k = ctx.rng.incl(0, max);
    (0..k).map(|_| ctx.rng.u64() as usize).collect()
}

fn program(ctx: &mut Ctx) -> R {
    let max = ctx.scale(1500, 200);
    let mut bvs: Vec<BitVec> = Vec::new();
    let mut ivs: Vec<IntVec> = Vec::new();
    let steps = ctx.scale(60, 14);
    ctx.desc(|| format!("a program of {steps} safe calls with any arguments"));
    let id = ctx.rng.clone().u64();
    ctx.distinct(id);
    for step in 0..steps {
        let op = if bvs.is_empty() { 0 } else { ctx.rng.below(20) };
        ctx.op(|| format!("step {step}: operation {op}"));
        match op {
            0 | 1 => {
                let m = random_bits(ctx, max);
                bvs.push(make_bulk(&m));
                if bvs.len() > 4 {
                    let k = ctx.rng.below(5);
                    bvs.swap_remove(k);
                }
            }
            2 => {
                let n = ctx.len(max);
                bvs.push(BitVec::new(n));
                if bvs.len() > 4 {
                    bvs.swap_remove(0);
                }
            }
            3 => {
                let k = ctx.rng.below(bvs.len());
                let c = bvs[k].clone();
                let v = &bvs[k];
                let eq = call(ctx, "compare", || *c == **v);
                saw(ctx, eq);
                bvs[k] = c;
            }
            4 => {
                // replace the content by any view
                let k = ctx.rng.below(bvs.len());
                let b = raw_box(ctx, ctx.scale(24, 4));
                let bits = b.len() * 64;
                let s = if ctx.rng.bool() { 0 } else { ctx.rng.incl(0, bits + 70) };
                let e = ctx.rng.incl(s.saturating_sub(3), bits.max(s) + 130);
                // sometimes bounds that are nowhere near the words
                let (s, e) = match ctx.rng.below(8) {
                    0 => (s, hostile(ctx, bits)),
                    1 => (hostile(ctx, bits), usize::MAX - ctx.rng.below(70)),
                    _ => (s, e),
                };
                if let Some(x) = call(ctx, "replace", || BitSlice::new(b, s, e)) {
                    *bvs[k] = x;
                    let l = bvs[k].len();
                    ctx.seen(l as u64);
                }
            }
            5 => {
                let (a, b) = (ctx.rng.below(bvs.len()), ctx.rng.below(bvs.len()));
                if a != b {
                    let (l, r) = bvs.split_at_mut(a.max(b));
                    std::mem::swap(&mut *l[a.min(b)], &mut *r[0]);
                }
            }
            6 | 7 => {
                let k = ctx.rng.below(bvs.len());
                let n = bvs[k].len();
                for _ in 0..4 {
                    let i = hostile(ctx, n);
                    let v = &mut bvs[k];
                    match ctx.rng.below(3) {
                        0 => {
                            call(ctx, "vec set", || v.set_bit(i, true));
                        }
                        1 => {
                            call(ctx, "vec flip", || v.flip_bit(i));
                        }
                        _ => {
                            let g = call(ctx, "vec get", || v.get(i));
                            saw(ctx, g)
                        }
                    }
                }
            }
            8 | 9 => {
                let k = ctx.rng.below(bvs.len());
                let mut v = std::mem::replace(&mut bvs[k], BitVec::new(0));
                abuse(ctx, &mut v, 6);
                bvs[k] = v;
            }
            10 => {
                // views with any bounds over the words
                let k = ctx.rng.below(bvs.len());
                let mut v = std::mem::replace(&mut bvs[k], BitVec::new(0));
                let n = v.len();
                let (s, e) = (hostile(ctx, n), hostile(ctx, n));
                if let Some(mut t) = call(ctx, "view", || BitSlice::new(&mut *v, s, e)) {
                    abuse(ctx, &mut t, 6);
                }
                bvs[k] = v;
            }
            11 => {
                let mut b = raw_box(ctx, 5);
                let n = b.len() * 64;
                let (s, e) = (hostile(ctx, n), hostile(ctx, n));
                if let Some(mut t) = call(ctx, "view", || BitSlice::new(&mut b[..], s, e)) {
                    abuse(ctx, &mut t, 6);
                }
                ctx.seen(b.iter().fold(5, |h, x| mix(h, *x as u64)));
            }
            12 => {
                let k = ctx.rng.below(bvs.len());
                let v = bvs[k].clone();
                let n = v.len();
                let (s, e) = (hostile(ctx, n), hostile(ctx, n));
                iterate(ctx, Iter::new(v.backing(), s, e));
                iterate(ctx, Iter::new(&*v, s, e));
                iterate(ctx, v.iter());
                let r = hostile_range(ctx, n);
                if let Some(t) = call(ctx, "slice", || v.slice(r)) {
                    iterate(ctx, t.into_iter());
                }
            }
            13 => {
                let (a, b) = (ctx.rng.below(bvs.len()), ctx.rng.below(bvs.len()));
                let (x, y) = (bvs[a].clone(), bvs[b].clone());
                let g = call(ctx, "compare", || *x == *y);
                saw(ctx, g);
                let (s, e) = (ctx.rng.below(100), ctx.rng.below(300));
                let g = call(ctx, "compare", || BitSlice::new(&*x, s, e) == BitSlice::new(y.raw(), s, e));
                saw(ctx, g);
            }
            14 => {
                let k = ctx.rng.below(bvs.len());
                let v = bvs[k].clone();
                if v.len() > 1 << 24 {
                    // the text may be given its space first, and this much does not exist
                    continue;
                }
                let g = call(ctx, "text", || format!("{v:?} {:?} {:?}", v.slice(..), v.iter()).len());
                saw(ctx, g.map(|x| x as u64));
            }
            15 => {
                let k = ctx.rng.below(bvs.len());
                let v = bvs[k].clone();
                rank_select(ctx, &v);
            }
            16 => {
                let x = ctx.rng.u64();
                primitives(ctx, x);
            }
            17 => {
                let w = if ctx.rng.chance(3, 4) { ctx.rng.incl(1, 64) } else { hostile(ctx, 65) };
                let mut c = ctx.len(300);
                if (5..=64).contains(&w) && ctx.rng.chance(1, 4) {
                    // more bits than there are numbers for: at least 2^66, just above a multiple of 2^64
                    let k = ctx.rng.incl(4, w - 1) as u128;
                    c = ((k << 64).div_ceil(w as u128) as usize).saturating_add(ctx.rng.below(9)) | 1;
                }
                if let Some(v) = call(ctx, "int new", || if c % 2 == 0 { IntVec::new(w) } else { IntVec::with_capacity(w, c) }) {
                    ivs.push(v);
                    if ivs.len() > 3 {
                        ivs.remove(0);
                    }
                }
            }
            _ => {
                if ivs.is_empty() {
                    continue;
                }
                let k = ctx.rng.below(ivs.len());
                integers(ctx, &mut ivs, k);
            }
        }
    }
    for v in &bvs {
        let h = v.raw().iter().fold(11, |h, x| mix(h, *x as u64));
        ctx.seen(h);
    }
    for v in &ivs {
        let h = v.raw_data().iter().fold(13, |h, x| mix(h, *x as u64));
        ctx.seen(h);
    }
    Ok(())
}

fn primitives(ctx: &mut Ctx, x: u64) {
    macro_rules! one {
        ($t:ty) => {{
            let mut p = x as $t;
            let i = hostile(ctx, <$t>::BITS as usize);
            let g = call(ctx, "primitive get", || p.get_bit(i));
            saw(ctx, g);
            call(ctx, "primitive set", || p.set_bit(i, x & 1 == 1));
            call(ctx, "primitive flip", || p.flip_bit(i));
            ctx.seen(p as u64);
            let mut b = Box::new(p);
            call(ctx, "primitive flip", || BitModify::flip_bit(&mut b, i));
            let r = Rc::new(*b);
            let g = call(ctx, "primitive get", || BitGet::get_bit(&r, i));
            saw(ctx, g);
            let (s, e) = (hostile(ctx, <$t>::BITS as usize), hostile(ctx, <$t>::BITS as usize));
            if let Some(mut t) = call(ctx, "view", || BitSlice::new(&mut p, s, e)) {
                abuse(ctx, &mut t, 2);
            }
            ctx.seen(p as u64);
        }};
    }
    match ctx.rng.below(5) {
        0 => one!(u8),
        1 => one!(u16),
        2 => one!(u32),
        3 => one!(u64),
        _ => one!(usize),
    }
    // the strategies accept any entry
    let entry = (ctx.rng.u64() as u128) << 64 | ctx.rng.u64() as u128;
    let r = if ctx.rng.bool() { ctx.rng.below(4096) } else { hostile(ctx, 4096) };
    let g = call(ctx, "find_l2", || LinearSearch::find_l2(entry, r));
    saw(ctx, g.map(|(a, b)| mix(a as u64, b as u64)));
    let g = call(ctx, "find_l2", || BinarySearch::find_l2(entry, r));
    saw(ctx, g.map(|(a, b)| mix(a as u64, b as u64)));
    #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
    let _ = outcome(|| succinct_neo::rank_select::flat_popcount::SimdSearch::find_l2(entry, r));
}

fn integers(ctx: &mut Ctx, ivs: &mut Vec<IntVec>, k: usize) {
    for _ in 0..ctx.scale(20, 6) {
        let v = &mut ivs[k];
        let n = v.iter().len();
        let x = match ctx.rng.below(3) {
            0 => ctx.rng.u64() as usize,
            1 => ctx.rng.below(2),
            _ => (ctx.rng.u64() >> ctx.rng.below(64)) as usize,
        };
        match ctx.rng.below(6) {
            0..=2 => {
                call(ctx, "int push", || v.push(x));
            }
            3 => {
                let i = hostile(ctx, n);
                call(ctx, "int set", || v.set(i, x));
            }
            _ => {
                let i = hostile(ctx, n);
                let g = call(ctx, "int get", || v.get(i));
                saw(ctx, g.map(|x| x as u64));
            }
        }
    }
    let v = &ivs[k];
    let g = call(ctx, "int iterate", || v.iter().fold(17, |h, x| mix(h, x as u64)));
    saw(ctx, g);
    let g = call(ctx, "int text", || format!("{v:?}").len());
    ctx.seen(g.is_some() as u64);
    if ctx.rng.chance(1, 4) {
        let v = ivs.swap_remove(k);
        let mut it = v.into_iter();
        let k = ctx.rng.below(20);
        let g = call(ctx, "int into_iter", || it.nth(k).map(|x| x as u64).unwrap_or(9));
        saw(ctx, g);
        ctx.seen(it.len() as u64);
    }
}

/// Structures over lengths at the borders of words and blocks, with queries at their ends.
fn blocks(ctx: &mut Ctx) -> R {
    let unit = *ctx.rng.pick(&[64usize, 512, 4096, 4096, 8192]);
    let n = (unit * ctx.rng.incl(0, ctx.scale(5, if unit > 600 { 1 } else { 3 })) + ctx.rng.below(3)).saturating_sub(1);
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    ctx.desc(|| format!("structure over {n} bits of pattern {kind}"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    rank_select(ctx, &v);
    rank_select(ctx, &v);
    ensure!(v.len() == n, "length changed");
    // the content may start anywhere in the words and end before them
    let mut w = BitVec::new(0);
    let b: Box<[usize]> = m.words().iter().map(|x| *x as usize).collect();
    let bits = b.len() * 64;
    let s = ctx.rng.incl(0, bits);
    let e = ctx.rng.incl(s, bits);
    *w = BitSlice::new(b, s, e);
    rank_select(ctx, &w);
    Ok(())
}

/// Nested views of every kind of backing.
fn shapes(ctx: &mut Ctx) -> R {
    let b = raw_box(ctx, ctx.scale(10, 3));
    let n = b.len() * 64;
    ctx.desc(|| format!("nested views over {n} bits"));
    ctx.distinct(b.iter().fold(3, |h, x| mix(h, *x as u64)));
    let (s, e) = (ctx.rng.incl(0, n), ctx.rng.incl(0, n + 5));
    let Some(mut a) = call(ctx, "view", || BitSlice::new(Box::new(b), s, e)) else { return Ok(()) };
    abuse(ctx, &mut a, 3);
    let len = a.len();
    {
        let (s, e) = (ctx.rng.incl(0, len), ctx.rng.incl(0, len.saturating_add(5)));
        if let Some(mut c) = call(ctx, "view", || BitSlice::new(&mut a, s, e)) {
            abuse(ctx, &mut c, 3);
            let l = c.len();
            if l > 0 {
                let k = ctx.rng.below(l);
                let (mut x, mut y) = c.split_at_mut(k);
                abuse(ctx, &mut x, 2);
                abuse(ctx, &mut y, 2);
                {
                    let mut z = y.slice_mut(..);
                    abuse(ctx, &mut z, 2);
                }
                abuse(ctx, &mut x, 2);
                let g = call(ctx, "compare", || x == y);
                saw(ctx, g);
                // parts outlive the order in which they were made
                drop(x);
                abuse(ctx, &mut y, 1);
            }
        }
    }
    let Some(rc) = call(ctx, "clone", || Rc::new(a.clone())) else { return Ok(()) };
    let other = rc.clone();
    iterate(ctx, Iter::new(rc, 0, len));
    iterate(ctx, BitSlice::new(other, 0, len + 1).into_iter());
    iterate(ctx, a.into_iter());
    Ok(())
}

type Reach = Option<Box<dyn FnMut(u64) -> bool>>;

thread_local! {
    /// Accesses the other part of what the running access belongs to.
    static OTHER: RefCell<Reach> = const { RefCell::new(None) };
}

/// A backing of a user: it fails now and then, contradicts itself, and while it is accessed it
/// accesses other views.
#[derive(Clone, Debug)]
struct Own {
    words: [usize; 2],
    calls: Cell<u64>,
    /// Fails at the calls that are multiples of this.
    fails: u64,
    /// What is done to the other view at each call.
    reach: u64,
    lies: bool,
}

impl Own {
    fn called(&self) -> u64 {
        let c = self.calls.get() + 1;
        self.calls.set(c);
        if self.reach != 0 {
            if let Some(mut f) = OTHER.with(|o| o.borrow_mut().take()) {
                f(mix(self.reach, c));
                OTHER.with(|o| *o.borrow_mut() = Some(f));
            }
        }
        if self.fails != 0 && c % self.fails == 0 {
            panic!("the backing failed");
        }
        c
    }
}

impl BitGet for Own {
    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
        self.get_bit(index)
    }

    fn get_bit(&self, index: usize) -> bool {
        let c = self.called();
        let b = self.words[..].get_bit(index);
        b ^ (self.lies && c % 3 == 0)
    }
}

impl BitModify for Own {
    unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {
        self.set_bit(index, value)
    }

    fn set_bit(&mut self, index: usize, value: bool) {
        self.called();
        self.words[..].set_bit(index, value);
        self.called();
    }

    unsafe fn flip_bit_unchecked(&mut self, index: usize) {
        self.flip_bit(index)
    }

    fn flip_bit(&mut self, index: usize) {
        self.called();
        self.words[..].flip_bit(index);
        self.called();
    }
}

/// Views over backings whose access functions are written by the user of the crate.
fn own_backings(ctx: &mut Ctx) -> R {
    let own = Own {
        words: [ctx.rng.u64() as usize, ctx.rng.u64() as usize],
        calls: Cell::new(0),
        fails: if ctx.rng.bool() { 0 } else { ctx.rng.incl(1, 9) as u64 },
        reach: 0,
        lies: ctx.rng.chance(1, 4),
    };
    ctx.desc(|| format!("{own:?}"));
    ctx.distinct(mix(own.words[0] as u64, own.words[1] as u64));
    let n = 128;
    let (s, e) = (ctx.rng.incl(0, n), ctx.rng.incl(0, n + 5));
    if let Some(mut a) = call(ctx, "view", || BitSlice::new(own.clone(), s, e)) {
        abuse(ctx, &mut a, 4);
        let b = a.clone();
        let g = call(ctx, "compare", || a == b);
        saw(ctx, g);
        iterate(ctx, a.iter());
        let r = hostile_range(ctx, a.len());
        if let Some(t) = call(ctx, "slice", || a.slice(r)) {
            iterate(ctx, t.iter());
            iterate(ctx, t.into_iter());
        }
        iterate(ctx, BitSlice::new(Rc::new(own.clone()), s.min(e), e).into_iter());
        ctx.seen(a.backing().words[0] as u64);
        iterate(ctx, b.into_iter());
    }
    // while one part is accessed, its backing accesses the other part
    let k = ctx.rng.incl(1, n - 2);
    let (right, twice) = (ctx.rng.bool(), ctx.rng.bool());
    let hits = Rc::new(Cell::new((0u64, 0u64)));
    let whole = Box::into_raw(Box::new(BitSlice::new(Own { reach: ctx.rng.u64() | 1, ..own }, 0, n)));
    {
        // as safe code would get it from Box::leak, but given back at the end
        let whole: &'static mut BitSlice<Own> = unsafe { &mut *whole };
        let (l, r) = whole.split_at_mut(k);
        let (mut here, mut there) = if right { (r, l) } else { (l, r) };
        let len = there.len();
        let seen = hits.clone();
        OTHER.with(|o| {
            *o.borrow_mut() = Some(Box::new(move |x| {
                let i = (x >> 8) as usize % len;
                let done = outcome(|| match x % 4 {
                    0 => there.get(i),
                    1 => {
                        there.set(i, x & 16 == 0);
                        true
                    }
                    2 => {
                        there.flip(i);
                        true
                    }
                    _ => there.iter().take(3).count() == 3,
                });
                let (a, b) = seen.get();
                seen.set(if done.is_some() { (a + 1, b) } else { (a, b + 1) });
                done.unwrap_or(false)
            }))
        });
        abuse(ctx, &mut here, ctx.scale(12, 4));
        if twice {
            let h = here.len();
            let j = ctx.rng.below(h);
            let (mut x, mut y) = here.split_at_mut(j);
            abuse(ctx, &mut y, 3);
            abuse(ctx, &mut x, 2);
        }
        let g = call(ctx, "text", || format!("{here:?}").len());
        ctx.seen(g.is_some() as u64);
        iterate(ctx, here.iter());
        drop(OTHER.with(|o| o.borrow_mut().take()));
    }
    let whole = unsafe { Box::from_raw(whole) };
    ctx.seen(whole.backing().words.iter().fold(7, |h, x| mix(h, *x as u64)));
    let (a, b) = hits.get();
    ctx.ev("accesses from inside of an access", a + b);
    ctx.stats.rejections += b;
    Ok(())
}

/// Objects of up to 2^25 bits, used at their ends.
fn large(ctx: &mut Ctx) -> R {
    let e = ctx.rng.incl(14, 25);
    let unit = *ctx.rng.pick(&[1usize, 64, 512, 4096, 8192]);
    let n = ((1usize << e) + ctx.rng.below(1 << e)) / unit * unit;
    let kind = ctx.rng.below(Bits::KINDS);
    ctx.desc(|| format!("large objects of {n} bits of pattern {kind}"));
    ctx.distinct(mix(n as u64, kind as u64));
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    let mut v = make_bulk(&m);
    if n < 1 << 22 || ctx.rng.chance(1, 4) {
        rank_select(ctx, &v);
        let c = v.clone();
        let g = call(ctx, "compare", || *c == *v);
        saw(ctx, g);
    }
    abuse(ctx, &mut v, 30);
    let a = ctx.rng.below(n);
    {
        let mut s = v.slice_mut(a..);
        abuse(ctx, &mut s, 30);
    }
    {
        let (mut l, mut r) = v.split_at_mut(a);
        abuse(ctx, &mut r, 20);
        abuse(ctx, &mut l, 20);
    }
    iterate(ctx, v.slice(n - 70..).into_iter());
    let k = n - ctx.rng.below(70);
    let g = call(ctx, "nth", || v.iter().nth(k).map(|b| b as u64).unwrap_or(2));
    saw(ctx, g);
    ctx.seen(v.raw().iter().fold(11, |h, x| mix(h, *x as u64)));
    let w = ctx.rng.incl(1, 64);
    let mut iv = IntVec::new(w);
    let len = n / w;
    let mask = usize::MAX >> (64 - w);
    for i in 0..len {
        iv.push(i.wrapping_mul(0x9E37_79B9_7F4A_7C15) & mask);
    }
    let mut ivs = vec![iv];
    for _ in 0..40 {
        let i = hostile(ctx, len);
        let x = ctx.rng.u64() as usize & mask;
        call(ctx, "int set", || ivs[0].set(i, x));
        let g = call(ctx, "int get", || ivs[0].get(i));
        saw(ctx, g.map(|x| x as u64));
    }
    ctx.seen(ivs[0].raw_data().iter().fold(13, |h, x| mix(h, *x as u64)));
    if len < 1 << 20 {
        integers(ctx, &mut ivs, 0);
    }
    Ok(())
}
