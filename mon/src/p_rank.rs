//! Monitors for rank and select.

use crate::core::*;
use crate::p_bits::{make, make_bulk, random_bits};
use crate::Family;
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::{BitModify, BitVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

#[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
use succinct_neo::rank_select::flat_popcount::SimdSearch;

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C14", "all_patterns", 12, 15, 5, rank_all_patterns).fixed(),
        Family::new("C14", "all_lengths", 4700, 17_000, 4, rank_all_lengths).fixed(),
        Family::new("C14", "patterns", 4_000, 60_000, 8, rank_patterns),
        Family::new("C14", "large", 60, 1_000, 0, rank_large),
        Family::new("C14", "alternating", 1_000, 20_000, 2, rank_alternating),
        Family::new("C14", "replaced", 800, 10_000, 3, rank_replaced),
        Family::new("C14", "huge", 1, 3, 0, rank_huge).heavy(),
        Family::new("C15", "all_patterns", 12, 15, 5, select_all_patterns).fixed(),
        Family::new("C15", "all_lengths", 4700, 17_000, 4, select_all_lengths).fixed(),
        Family::new("C15", "patterns", 4_000, 60_000, 8, select_patterns),
        Family::new("C15", "large", 60, 1_000, 0, select_large),
        Family::new("C15", "samples", 800, 10_000, 0, select_samples),
        Family::new("C15", "alternating", 1_000, 20_000, 2, select_alternating),
        Family::new("C15", "replaced", 800, 10_000, 3, select_replaced),
        Family::new("C15", "huge", 1, 3, 0, select_huge).heavy(),
        Family::new("C16", "ends", 6_000, 100_000, 8, ends),
        Family::new("C16", "replaced", 800, 10_000, 3, ends_replaced),
        Family::new("C16", "degenerate", 700, 1_400, 8, degenerate).fixed(),
        Family::new("C16", "long", 42, 400, 0, degenerate_long).fixed(),
        Family::new("C16", "huge", 1, 2, 0, ends_huge).heavy(),
        Family::new("C17", "entries", 60_000, 1_000_000, 20, strat_entries),
        Family::new("C17", "structures", 3_000, 50_000, 3, strat_structures),
    ]
}

/// Prefix counts and positions of ones.
pub struct Ref {
    pub n: usize,
    /// ones before each word
    before: Vec<usize>,
    words: Vec<u64>,
    pub pos: Vec<usize>,
}

impl Ref {
    pub fn new(m: &Bits) -> Self {
        let mut before = Vec::with_capacity(m.w.len() + 1);
        let mut pos = Vec::new();
        let mut c = 0;
        for (wi, w) in m.w.iter().enumerate() {
            before.push(c);
            c += w.count_ones() as usize;
            let mut w = *w;
            while w != 0 {
                pos.push(wi * 64 + w.trailing_zeros() as usize);
                w &= w - 1;
            }
        }
        before.push(c);
        Ref { n: m.n, before, words: m.w.clone(), pos }
    }
    pub fn rank1(&self, i: usize) -> usize {
        let (w, o) = (i / 64, i % 64);
        self.before[w] + if o == 0 { 0 } else { (self.words[w] << (64 - o)).count_ones() as usize }
    }
}

fn check_rank<S>(ctx: &mut Ctx, f: &FlatPopcount<S>, r: &Ref, i: usize, what: &str) -> R {
    let e1 = r.rank1(i);
    let e0 = i - e1;
    let g1 = f.rank::<true>(i);
    ensure!(g1 == e1, "{what}: rank of ones at {i} of {} is {g1} instead of {e1}", r.n);
    let g0 = f.rank::<false>(i);
    ensure!(g0 == e0, "{what}: rank of zeros at {i} of {} is {g0} instead of {e0}", r.n);
    if i % 3 == 0 {
        let (d1, d0) = (f.rank_dyn(i, true), f.rank_dyn(i, false));
        ensure!(d1 == e1 && d0 == e0, "{what}: rank_dyn at {i} of {} is {d1} and {d0} instead of {e1} and {e0}", r.n);
    }
    ctx.stats.events += 2;
    Ok(())
}

fn rank_queries<S>(ctx: &mut Ctx, f: &FlatPopcount<S>, r: &Ref, full: bool, what: &str) -> R {
    let n = r.n;
    ensure!(f.len() == n && f.is_empty() == (n == 0), "{what}: length is {} instead of {n}", f.len());
    if full {
        for i in 0..=n {
            check_rank(ctx, f, r, i, what)?;
        }
        ctx.ev("rank at every index", 1);
    } else {
        for i in [0, n, n.saturating_sub(1)] {
            check_rank(ctx, f, r, i, what)?;
        }
        for _ in 0..ctx.scale(600, 60) {
            let i = if n == 0 { 0 } else { ctx.index(n) };
            check_rank(ctx, f, r, i, what)?;
            let unit = *ctx.rng.pick(&[64usize, 512, 4096, 8192]);
            let b = ctx.rng.incl(0, n / unit) * unit;
            for i in [b.saturating_sub(1), b, (b + 1).min(n)] {
                check_rank(ctx, f, r, i, what)?;
            }
        }
    }
    Ok(())
}

fn rank_all_patterns(ctx: &mut Ctx) -> R {
    let n = ctx.idx;
    ctx.desc(|| format!("every pattern of {n} bits, every index"));
    for p in 0..1u64 << n {
        let m = Bits { w: vec![p], n };
        let v = make(&m);
        let r = Ref::new(&m);
        let f = FlatPopcount::<()>::new(&v);
        for i in 0..=n {
            check_rank(ctx, &f, &r, i, "small")?;
        }
        ctx.distinct(mix(n as u64, p));
    }
    Ok(())
}

fn rank_all_lengths(ctx: &mut Ctx) -> R {
    let n = if ctx.small { [0, 1, 64, 600][ctx.idx % 4] } else { ctx.idx };
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    ctx.desc(|| format!("n={n} pattern {kind}"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    let f = FlatPopcount::<()>::new(&v);
    let full = n < 700 || n % 16 < 2;
    rank_queries(ctx, &f, &r, full, "every length")
}

macro_rules! each_strat {
    ($k:expr, $v:expr, |$f:ident, $name:ident| $body:expr) => {{
        match $k % 3 {
            0 => {
                let $f = FlatPopcount::<LinearSearch>::new($v);
                let $name = "linear";
                $body
            }
            1 => {
                let $f = FlatPopcount::<BinarySearch>::new($v);
                let $name = "binary";
                $body
            }
            #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
            _ => {
                let $f = FlatPopcount::<SimdSearch>::new($v);
                let $name = "simd";
                $body
            }
            #[cfg(not(all(target_feature = "ssse3", target_feature = "sse4.1")))]
            _ => {
                let $f = FlatPopcount::<LinearSearch>::new($v);
                let $name = "linear";
                $body
            }
        }
    }};
}

/// Lengths around whole blocks, and small ones.
fn blocky_bits(ctx: &mut Ctx, max: usize) -> Bits {
    random_bits(ctx, max)
}

fn rank_patterns(ctx: &mut Ctx) -> R {
    let m = blocky_bits(ctx, ctx.scale(30_000, 900));
    let kind = ctx.rng.below(3);
    ctx.desc(|| format!("n={} ones={}", m.n, m.ones()));
    ctx.distinct(m.hash());
    let v = if ctx.rng.bool() { make(&m) } else { make_bulk(&m) };
    let r = Ref::new(&m);
    let full = ctx.rng.chance(1, 6);
    each_strat!(kind, &v, |f, name| rank_queries(ctx, &f, &r, full, name))
}

fn rank_large(ctx: &mut Ctx) -> R {
    let m = blocky_bits(ctx, 1 << 21);
    ctx.desc(|| format!("n={} ones={}", m.n, m.ones()));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| {
        for _ in 0..8 {
            rank_queries(ctx, &f, &r, false, name)?;
        }
        Ok(())
    })
}

/// Several structures at once, queried in turn; the vector changes between structures.
fn rank_alternating(ctx: &mut Ctx) -> R {
    let mut ms = [blocky_bits(ctx, ctx.scale(9000, 600)), blocky_bits(ctx, ctx.scale(9000, 600))];
    let mut vs = [make(&ms[0]), make(&ms[1])];
    ctx.desc(|| format!("n={} and n={}, queried in turn and rebuilt after changes", ms[0].n, ms[1].n));
    ctx.distinct(mix(ms[0].hash(), ms[1].hash()));
    for _ in 0..3 {
        let rs = [Ref::new(&ms[0]), Ref::new(&ms[1])];
        let a = FlatPopcount::<LinearSearch>::new(&vs[0]);
        let b = FlatPopcount::<BinarySearch>::new(&vs[1]);
        let c = FlatPopcount::<()>::new(&vs[0]);
        for _ in 0..ctx.scale(150, 20) {
            match ctx.rng.below(3) {
                0 => {
                    let i = ctx.rng.incl(0, rs[0].n);
                    check_rank(ctx, &a, &rs[0], i, "first")?;
                    check_rank(ctx, &c, &rs[0], i, "second structure for the first")?;
                    check_rank(ctx, &a, &rs[0], i, "first again")?
                }
                1 => {
                    let i = ctx.rng.incl(0, rs[1].n);
                    check_rank(ctx, &b, &rs[1], i, "second")?
                }
                _ => {
                    let i = ctx.rng.incl(0, rs[0].n);
                    check_rank(ctx, &c, &rs[0], i, "third")?
                }
            }
        }
        for k in 0..2 {
            for _ in 0..20 {
                if ms[k].n > 0 {
                    let i = ctx.index(ms[k].n);
                    ms[k].flip(i);
                    vs[k].flip_bit(i);
                }
            }
        }
    }
    Ok(())
}

/// A vector whose content was replaced by a view that starts inside of its words.
fn replaced(ctx: &mut Ctx) -> (BitVec, Bits) {
    let m = blocky_bits(ctx, ctx.scale(20_000, 600));
    let off = match ctx.rng.below(4) {
        0 => ctx.rng.below(64),
        1 => 64 * ctx.rng.below(20),
        _ => ctx.len(ctx.scale(20_000, 300)),
    };
    // The words around the view have bits of their own
    let kind = ctx.rng.below(Bits::KINDS);
    let after = match ctx.rng.below(8) {
        0 => ctx.len(ctx.scale(10_000, 100)),
        1 => 0,
        _ => ctx.rng.below(200),
    };
    let mut words = Bits::pattern(kind, off + m.n + after, &mut ctx.rng);
    for i in 0..m.n {
        words.set(off + i, m.get(i));
    }
    let w: Vec<usize> = words.words().iter().map(|x| *x as usize).collect();
    let mut v = BitVec::new(ctx.rng.below(100));
    *v = BitSlice::new(w.into_boxed_slice(), off, off + m.n);
    ctx.desc(|| format!("{} bits at offset {off} of their words", m.n));
    ctx.distinct(mix(off as u64, m.hash()));
    (v, m)
}

fn rank_replaced(ctx: &mut Ctx) -> R {
    let (v, m) = replaced(ctx);
    let r = Ref::new(&m);
    let f = FlatPopcount::<()>::new(&v);
    rank_queries(ctx, &f, &r, false, "replaced content")
}

/// Ones everywhere except at the multiples of a prime: both counts are easy to compute.
const GAP: usize = 1_000_003;

pub fn huge_vector(n: usize) -> BitVec {
    let mut w = vec![!0usize; n.div_ceil(64)];
    for i in (0..n).step_by(GAP) {
        w[i / 64] &= !(1 << (i % 64));
    }
    if n % 64 != 0 {
        let l = w.len() - 1;
        w[l] &= (1 << (n % 64)) - 1;
    }
    let mut v = BitVec::new(0);
    *v = BitSlice::new(w.into_boxed_slice(), 0, n);
    v
}
fn huge_zeros(i: usize) -> usize {
    i.div_ceil(GAP)
}
/// position of the k-th one
fn huge_select(k: usize) -> usize {
    // in each period of GAP bits there are GAP-1 ones, after a zero
    k / (GAP - 1) * GAP + k % (GAP - 1) + 1
}
fn huge_len(idx: usize) -> usize {
    [(1usize << 32) + 4096 * 3 + 77, (1 << 33) + 12_345, (1 << 32) - 1][idx % 3]
}
fn huge_spots(ctx: &mut Ctx, n: usize) -> Vec<usize> {
    let mut s = vec![0, n];
    for e in 12..40 {
        for d in -3i64..=3 {
            let i = (1i64 << e) + d;
            if i >= 0 && i as usize <= n {
                s.push(i as usize);
            }
        }
    }
    for d in 0..9000 {
        s.push(n - d);
    }
    for _ in 0..200_000 {
        s.push(ctx.rng.incl(0, n));
    }
    s
}

fn rank_huge(ctx: &mut Ctx) -> R {
    let n = huge_len(ctx.idx);
    ctx.desc(|| format!("n={n}: more than 32 bit positions"));
    ctx.distinct(n as u64);
    let v = huge_vector(n);
    let f = FlatPopcount::<()>::new(&v);
    for i in huge_spots(ctx, n) {
        let e0 = huge_zeros(i);
        let (g0, g1) = (f.rank::<false>(i), f.rank::<true>(i));
        ensure!(g0 == e0 && g1 == i - e0, "ranks at {i} of {n} are {g1} and {g0} instead of {} and {e0}", i - e0);
        let (g0, g1) = (f.rank_dyn(i, false), f.rank_dyn(i, true));
        ensure!(g0 == e0 && g1 == i - e0, "rank_dyn at {i} of {n} is {g1} and {g0} instead of {} and {e0}", i - e0);
        ctx.ev("rank", 4);
    }
    // few ones, so that the zeros are many
    drop(f);
    let mut v = v;
    let mut words = std::mem::replace(&mut *v, BitSlice::new(Box::default(), 0, 0)).backing().clone();
    words.iter_mut().for_each(|w| *w = !*w);
    if n % 64 != 0 {
        words[n / 64] &= (1 << (n % 64)) - 1;
    }
    *v = BitSlice::new(words, 0, n);
    let f = FlatPopcount::<()>::new(&v);
    for i in huge_spots(ctx, n) {
        let e1 = huge_zeros(i);
        let (g1, g0, d1, d0) = (f.rank::<true>(i), f.rank::<false>(i), f.rank_dyn(i, true), f.rank_dyn(i, false));
        ensure!((g1, d1) == (e1, e1), "ranks at {i} of {n} are {g1} and {d1} instead of {e1}");
        ensure!((g0, d0) == (i - e1, i - e1), "ranks of zeros at {i} of {n} are {g0} and {d0} instead of {}", i - e1);
        ctx.ev("rank", 4);
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn check_select<S: SelectStrategy>(ctx: &mut Ctx, f: &FlatPopcount<S>, r: &Ref, k: usize, what: &str) -> R {
    let e = r.pos.get(k).copied();
    let g = f.select(k);
    ensure!(g == e, "{what}: select({k}) with {} ones in {} bits is {g:?} instead of {e:?}", r.pos.len(), r.n);
    if let Some(p) = g {
        if k % 4 == 0 {
            ensure!(f.rank::<true>(p) == k, "{what}: rank of select({k}) is {}", f.rank::<true>(p));
        }
    }
    ctx.stats.events += 1;
    Ok(())
}

fn select_queries<S: SelectStrategy>(ctx: &mut Ctx, f: &FlatPopcount<S>, r: &Ref, full: bool, what: &str) -> R {
    let ones = r.pos.len();
    if full {
        for k in 0..ones + 3 {
            check_select(ctx, f, r, k, what)?;
        }
        ctx.ev("select of every one", 1);
    } else {
        for k in [0, 1, ones.saturating_sub(1), ones, ones + 1] {
            check_select(ctx, f, r, k, what)?;
        }
        for _ in 0..ctx.scale(500, 50) {
            let k = if ones == 0 { 0 } else { ctx.index(ones) };
            check_select(ctx, f, r, k, what)?;
            let unit = *ctx.rng.pick(&[64usize, 512, 4096, 8192]);
            // ones next to the border of a block, and ones whose number is near such a border
            let b = ctx.rng.incl(0, r.n / unit) * unit;
            let k = r.rank1(b.min(r.n));
            for k in [k.saturating_sub(1), k, k + 1] {
                check_select(ctx, f, r, k, what)?;
            }
            let k = ctx.rng.incl(0, ones / unit) * unit;
            for k in [k.saturating_sub(1), k, k + 1] {
                check_select(ctx, f, r, k, what)?;
            }
        }
    }
    Ok(())
}

fn select_all_patterns(ctx: &mut Ctx) -> R {
    let n = ctx.idx;
    ctx.desc(|| format!("every pattern of {n} bits, every one"));
    for p in 0..1u64 << n {
        let m = Bits { w: vec![p], n };
        let v = make(&m);
        let r = Ref::new(&m);
        each_strat!(p, &v, |f, name| select_queries(ctx, &f, &r, true, name))?;
        ctx.distinct(mix(n as u64, p));
    }
    Ok(())
}

fn select_all_lengths(ctx: &mut Ctx) -> R {
    let n = if ctx.small { [0, 1, 64, 600][ctx.idx % 4] } else { ctx.idx };
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    ctx.desc(|| format!("n={n} pattern {kind}"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    let full = n < 700 || n % 16 < 3;
    each_strat!(ctx.idx, &v, |f, name| select_queries(ctx, &f, &r, full, name))
}

fn select_patterns(ctx: &mut Ctx) -> R {
    let m = blocky_bits(ctx, ctx.scale(40_000, 900));
    let kind = ctx.rng.below(3);
    ctx.desc(|| format!("n={} ones={}", m.n, m.ones()));
    ctx.distinct(m.hash());
    let v = if ctx.rng.bool() { make(&m) } else { make_bulk(&m) };
    let r = Ref::new(&m);
    let full = ctx.rng.chance(1, 6);
    each_strat!(kind, &v, |f, name| select_queries(ctx, &f, &r, full, name))
}

fn select_large(ctx: &mut Ctx) -> R {
    let m = blocky_bits(ctx, 1 << 21);
    ctx.desc(|| format!("n={} ones={}", m.n, m.ones()));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| {
        for _ in 0..8 {
            select_queries(ctx, &f, &r, false, name)?;
        }
        Ok(())
    })
}

/// Tens of thousands of ones with gaps between them.
fn select_samples(ctx: &mut Ctx) -> R {
    let runs = ctx.rng.incl(2, 5);
    let mut m = Bits::zeros(0);
    let mut parts = Vec::new();
    for _ in 0..runs {
        let gap = match ctx.rng.below(4) {
            0 => 0,
            1 => ctx.rng.below(200),
            2 => 4096 * ctx.rng.below(8),
            _ => ctx.rng.below(60_000),
        };
        let ones = (8192 * ctx.rng.incl(0, 3) + ctx.rng.below(5)).saturating_sub(2);
        let step = *ctx.rng.pick(&[1usize, 1, 2, 3]);
        parts.push((gap, ones, step));
    }
    let tail = ctx.len(9000);
    let n: usize = parts.iter().map(|(g, o, s)| g + o * s).sum::<usize>() + tail;
    m.n = n;
    m.w = vec![0; n / 64 + 1];
    let mut at = 0;
    for (g, o, s) in &parts {
        at += g;
        for _ in 0..*o {
            m.set(at, true);
            at += s;
        }
    }
    ctx.desc(|| format!("n={n} (gap, ones, step)={parts:?}"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| {
        for s in 0..=r.pos.len() / 8192 {
            for d in 0..40 {
                check_select(ctx, &f, &r, (s * 8192 + d).saturating_sub(20), name)?;
            }
        }
        select_queries(ctx, &f, &r, false, name)
    })
}

fn select_alternating(ctx: &mut Ctx) -> R {
    let mut ms = [blocky_bits(ctx, ctx.scale(20_000, 600)), blocky_bits(ctx, ctx.scale(20_000, 600))];
    let mut vs = [make_bulk(&ms[0]), make_bulk(&ms[1])];
    ctx.desc(|| format!("n={} and n={}, queried in turn and rebuilt after changes", ms[0].n, ms[1].n));
    ctx.distinct(mix(ms[0].hash(), ms[1].hash()));
    for _ in 0..3 {
        let rs = [Ref::new(&ms[0]), Ref::new(&ms[1])];
        let a = FlatPopcount::<LinearSearch>::new(&vs[0]);
        let b = FlatPopcount::<BinarySearch>::new(&vs[1]);
        let c = FlatPopcount::<BinarySearch>::new(&vs[0]);
        for _ in 0..ctx.scale(150, 20) {
            let (k0, k1) = (ctx.any_index(rs[0].pos.len()), ctx.any_index(rs[1].pos.len()));
            match ctx.rng.below(3) {
                0 => {
                    check_select(ctx, &a, &rs[0], k0, "first")?;
                    check_select(ctx, &c, &rs[0], k0, "second structure for the first")?;
                    check_select(ctx, &a, &rs[0], k0, "first again")?
                }
                1 => check_select(ctx, &b, &rs[1], k1, "second")?,
                _ => check_select(ctx, &c, &rs[0], k0, "third")?,
            }
        }
        for k in 0..2 {
            for _ in 0..20 {
                if ms[k].n > 0 {
                    let i = ctx.index(ms[k].n);
                    ms[k].flip(i);
                    vs[k].flip_bit(i);
                }
            }
        }
    }
    Ok(())
}

fn select_replaced(ctx: &mut Ctx) -> R {
    let (v, m) = replaced(ctx);
    let r = Ref::new(&m);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| select_queries(ctx, &f, &r, false, name))
}

fn select_huge(ctx: &mut Ctx) -> R {
    let n = huge_len(ctx.idx);
    ctx.desc(|| format!("n={n}: more than 32 bit positions"));
    ctx.distinct(n as u64);
    let v = huge_vector(n);
    let ones = n - huge_zeros(n);
    let (a, b) = (FlatPopcount::<LinearSearch>::new(&v), 0usize);
    let _ = b;
    for i in huge_spots(ctx, ones) {
        let e = (i < ones).then(|| huge_select(i));
        let g = a.select(i);
        ensure!(g == e, "select({i}) with {ones} ones in {n} bits is {g:?} instead of {e:?}");
        ctx.ev("select", 1);
    }
    drop(a);
    let a = FlatPopcount::<BinarySearch>::new(&v);
    for i in huge_spots(ctx, ones) {
        let e = (i < ones).then(|| huge_select(i));
        let g = a.select(i);
        ensure!(g == e, "binary: select({i}) with {ones} ones in {n} bits is {g:?} instead of {e:?}");
        ctx.ev("select", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn past_the_end<S: SelectStrategy>(ctx: &mut Ctx, f: &FlatPopcount<S>, n: usize, ones: usize, what: &str) -> R {
    for (i, e) in [(0, 0), (n, ones)] {
        let g = outcome(|| (f.rank::<true>(i), f.rank::<false>(i), f.rank_dyn(i, true), f.rank_dyn(i, false)));
        ensure!(g == Some((e, i - e, e, i - e)), "{what}: ranks at {i} of {n} bits with {ones} ones are {g:?}");
        ctx.ev("rank at an end", 4);
    }
    for _ in 0..ctx.scale(10, 4) {
        let i = ctx.bad_index(n + 1);
        ensure!(panics(|| f.rank::<true>(i)), "{what}: rank of ones at {i} of {n} bits did not panic");
        ensure!(panics(|| f.rank::<false>(i)), "{what}: rank of zeros at {i} of {n} bits did not panic");
        let b = ctx.rng.bool();
        ensure!(panics(|| f.rank_dyn(i, b)), "{what}: rank_dyn at {i} of {n} bits did not panic");
        ctx.stats.rejections += 3;
        ctx.ev("rank out of range", 3);
        let k = ctx.bad_index(ones);
        let g = outcome(|| f.select(k));
        ensure!(g == Some(None), "{what}: select({k}) with {ones} ones in {n} bits gives {g:?} instead of None");
        ctx.ev("select out of range", 1);
    }
    for k in ones..ones + 5 {
        let g = outcome(|| f.select(k));
        ensure!(g == Some(None), "{what}: select({k}) with {ones} ones in {n} bits gives {g:?} instead of None");
    }
    if ones > 0 {
        let g = outcome(|| f.select(ones - 1));
        ensure!(matches!(g, Some(Some(p)) if p < n), "{what}: select({}) with {ones} ones in {n} bits gives {g:?}", ones - 1);
    }
    ensure!(f.len() == n, "{what}: length is {} instead of {n}", f.len());
    ensure!(f.is_empty() == (n == 0), "{what}: is_empty is {} for {n} bits", f.is_empty());
    Ok(())
}

fn ends(ctx: &mut Ctx) -> R {
    let m = blocky_bits(ctx, ctx.scale(20_000, 700));
    let n = m.n;
    let ones = m.ones();
    ctx.desc(|| format!("n={n} ones={ones}: queries at and beyond the ends"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| past_the_end(ctx, &f, n, ones, name))
}

fn ends_replaced(ctx: &mut Ctx) -> R {
    let (v, m) = replaced(ctx);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| past_the_end(ctx, &f, m.n, m.ones(), name))
}

/// Long vectors of only zeros or ones, or with single exceptions: queries everywhere.
fn degenerate_long(ctx: &mut Ctx) -> R {
    let e = ctx.rng.incl(16, 22);
    let n = match ctx.rng.below(3) {
        0 => 1 << e,
        1 => (1 << e) + 4096 * ctx.rng.below(5) + ctx.rng.below(3),
        _ => ctx.rng.incl(1 << e, 2 << e),
    };
    let mode = ctx.idx % 7;
    let ones = matches!(mode, 1 | 4 | 5);
    let mut m = Bits::pattern(ones as usize, n, &mut ctx.rng);
    match mode {
        2 | 4 => m.flip(n - 1),
        3 | 5 => m.flip(0),
        6 => m.flip(ctx.rng.below(n)),
        _ => {}
    }
    let r = Ref::new(&m);
    ctx.desc(|| format!("n={n} ones={} (mode {mode})", r.pos.len()));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let k = ctx.rng.below(3);
    each_strat!(k, &v, |f, name| {
        past_the_end(ctx, &f, n, r.pos.len(), name)?;
        for i in (0..n).step_by(509) {
            check_rank(ctx, &f, &r, i, name)?;
        }
        for k in (0..r.pos.len()).step_by(509) {
            let g = outcome(|| f.select(k));
            ensure!(g == Some(Some(r.pos[k])), "{name}: select({k}) in {n} bits gives {g:?} instead of {}", r.pos[k]);
        }
        past_the_end(ctx, &f, n, r.pos.len(), name)
    })
}

fn degenerate(ctx: &mut Ctx) -> R {
    // empty, full, single bits, whole blocks
    let lens = [0, 1, 2, 63, 64, 65, 127, 128, 511, 512, 513, 1024, 3584, 3585, 4095, 4096, 4097, 4160, 4608, 7680, 8191, 8192, 8193, 12288, 16384, 16385, 32768, 40960];
    let n = if ctx.small { lens[ctx.idx % 9] } else { lens[ctx.idx % lens.len()] };
    let mode = ctx.idx / lens.len() % 7;
    let mut m = Bits::zeros(n);
    match mode {
        0 => {}
        1 => (0..n).for_each(|i| m.set(i, true)),
        2 if n > 0 => m.set(n - 1, true),
        3 if n > 0 => m.set(0, true),
        4 => (0..n.saturating_sub(1)).for_each(|i| m.set(i, true)),
        5 => (1..n).for_each(|i| m.set(i, true)),
        _ => {
            let k = ctx.rng.below(Bits::KINDS);
            m = Bits::pattern(k, n, &mut ctx.rng);
        }
    }
    let ones = m.ones();
    ctx.desc(|| format!("n={n} ones={ones} (mode {mode})"));
    ctx.distinct(m.hash());
    let v = make(&m);
    for k in 0..3 {
        each_strat!(k, &v, |f, name| past_the_end(ctx, &f, n, ones, name))?;
    }
    Ok(())
}

fn ends_huge(ctx: &mut Ctx) -> R {
    let n = [(1usize << 32) + 4096 * 5, (1 << 33) + 1][ctx.idx % 2];
    ctx.desc(|| format!("n={n}: the ends of more than 2^32 bits"));
    ctx.distinct(n as u64);
    for full in [false, true] {
        let mut v = BitVec::new(n);
        if full {
            v = huge_vector(n);
        } else {
            v.set_bit(n - 1, true);
        }
        let ones = if full { n - huge_zeros(n) } else { 1 };
        let f = FlatPopcount::<LinearSearch>::new(&v);
        past_the_end(ctx, &f, n, ones, "linear")?;
        let want = if full { huge_select(ones - 1) } else { n - 1 };
        let g = outcome(|| f.select(ones - 1));
        ensure!(g == Some(Some(want)), "select({}) of {ones} ones in {n} bits gives {g:?} instead of {want}", ones - 1);
        for i in [1usize << 32, (1 << 32) - 1] {
            let want = if full { huge_zeros(i) } else { i };
            ensure!(f.rank::<false>(i) == want, "rank of zeros at {i} is {} instead of {want}", f.rank::<false>(i));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

/// The definition of the strategies.
fn find(l2: &[usize; 7], rank: usize) -> (usize, usize) {
    let i = l2.iter().take_while(|x| **x <= rank).count();
    (i, if i == 0 { 0 } else { l2[i - 1] })
}

fn strat_entries(ctx: &mut Ctx) -> R {
    // the ones of the small blocks of a block, at most 512 each
    let mut blocks = [0usize; 8];
    match ctx.rng.below(6) {
        0 => blocks.iter_mut().for_each(|x| *x = ctx.rng.incl(0, 512)),
        1 => blocks.iter_mut().for_each(|x| *x = *ctx.rng.pick(&[0usize, 0, 1, 511, 512])),
        2 => {
            // a few in some of them
            let few = ctx.rng.incl(1, 8);
            blocks.iter_mut().for_each(|x| *x = if ctx.rng.bool() { ctx.rng.incl(0, few) } else { 0 });
        }
        3 => {
            // nearly full
            let few = ctx.rng.incl(1, 8);
            blocks.iter_mut().for_each(|x| *x = 512 - if ctx.rng.bool() { ctx.rng.incl(0, few) } else { 0 });
        }
        4 => {
            // sums next to powers of two
            let mut c = 0;
            for x in blocks.iter_mut() {
                let p = 1usize << ctx.rng.below(13);
                let to = (p + ctx.rng.below(3)).saturating_sub(1);
                *x = to.saturating_sub(c).min(512);
                c += *x;
            }
        }
        _ => {
            // all in one or two of them
            for _ in 0..2 {
                let k = ctx.rng.below(8);
                blocks[k] = ctx.rng.incl(0, 512);
            }
        }
    }
    // the last block of a vector may have fewer small blocks; the entries of the others are all ones
    let used = if ctx.rng.chance(1, 4) { ctx.rng.incl(1, 8) } else { 8 };
    blocks[used..].fill(0);
    let total: usize = blocks.iter().sum();
    let mut l2 = [4095usize; 7];
    let mut c = 0;
    for k in 0..used.min(7) {
        c += blocks[k];
        l2[k] = c;
    }
    let l1 = match ctx.rng.below(4) {
        0 => 0,
        1 => (1u128 << 44) - 1,
        _ => ctx.rng.u64() as u128 & ((1 << 44) - 1),
    };
    let entry = l2.iter().fold(l1, |e, x| e << 12 | *x as u128);
    ctx.desc(|| format!("entry with {l2:?} and l1 {l1:#x}"));
    ctx.distinct(l2.iter().fold(l1 as u64, |h, x| mix(h, *x as u64)));
    if total == 0 {
        return Ok(());
    }
    let mut ranks: Vec<usize> = vec![0, 1, 127, 128, 255, 256, 511, 512, 2047, 2048, 4094, 4095, total - 1];
    for x in l2 {
        ranks.extend([x.saturating_sub(1), x, x + 1]);
    }
    for _ in 0..ctx.scale(20, 4) {
        ranks.push(ctx.rng.below(total));
    }
    ranks.retain(|r| *r < total);
    for r in ranks {
        let e = find(&l2, r);
        let g = LinearSearch::find_l2(entry, r);
        ensure!(g == e, "linear search for {r} in {l2:?} (l1 {l1:#x}) gives {g:?} instead of {e:?}");
        let g = BinarySearch::find_l2(entry, r);
        ensure!(g == e, "binary search for {r} in {l2:?} (l1 {l1:#x}) gives {g:?} instead of {e:?}");
        #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
        {
            let g = SimdSearch::find_l2(entry, r);
            ensure!(g == e, "SIMD search for {r} in {l2:?} (l1 {l1:#x}) gives {g:?} instead of {e:?}");
            ctx.ev("simd search", 1);
        }
        ctx.ev("linear search", 1);
        ctx.ev("binary search", 1);
    }
    Ok(())
}

fn strat_structures(ctx: &mut Ctx) -> R {
    // whole structures with different strategies agree
    let m = blocky_bits(ctx, ctx.scale(20_000, 600));
    let v = make_bulk(&m);
    ctx.desc(|| format!("n={} ones={}: structures with every strategy", m.n, m.ones()));
    ctx.distinct(m.hash());
    let ones = m.ones();
    let a = FlatPopcount::<LinearSearch>::new(&v);
    let b = FlatPopcount::<BinarySearch>::new(&v);
    #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
    let c = FlatPopcount::<SimdSearch>::new(&v);
    for _ in 0..ctx.scale(300, 30) {
        let k = ctx.rng.incl(0, ones);
        let (x, y) = (a.select(k), b.select(k));
        ensure!(x == y, "select({k}) of {ones} is {x:?} with linear and {y:?} with binary search");
        #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
        {
            let z = c.select(k);
            ensure!(x == z, "select({k}) of {ones} is {x:?} with linear and {z:?} with SIMD search");
            ctx.ev("simd select", 1);
        }
        let i = ctx.rng.incl(0, m.n);
        ensure!(a.rank::<true>(i) == b.rank::<true>(i), "ranks at {i} differ between strategies");
        ctx.ev("select with every strategy", 1);
    }
    Ok(())
}
