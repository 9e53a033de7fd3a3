//! Monitors for the cost of the operations other than queries: single accesses are counted in
//! executed instructions, bulk operations in instructions (short inputs) and CPU time (long ones).

use crate::core::*;
use crate::p_bits::make_bulk;
use crate::p_cost::cost_up_to;
use crate::p_int::max_of;
use crate::Family;
use std::hint::black_box;
use succinct_neo::bit_vec::{BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C24", "bit_accesses", 24, 200, 0, bit_accesses).fixed(),
        Family::new("C24", "int_accesses", 64, 320, 0, int_accesses).fixed(),
        Family::new("C24", "counted", 2 * BULK.len(), 12 * BULK.len(), 0, counted).fixed(),
        Family::new("C24", "timed", 3 * BULK.len(), 12 * BULK.len(), 0, timed).heavy(),
    ]
}

const SINGLE: [&str; 17] = [
    "get", "get of a view", "set", "flip", "slice", "slice_mut", "split_at", "split_at_mut", "len and is_empty", "creating an iterator",
    "next", "len of an iterator", "write through a view", "write through a half", "get of a nested view", "next of an iterator over a view",
    "creating an iterator over a view",
];

/// Steps that are counted at most in a short vector.
const ENOUGH: u64 = 1_000_000;

/// What an access may cost in a long vector.
fn limit(small: u64) -> u64 {
    3 * small + 400
}

/// The most expensive single accesses at positions all over the vector.
fn singles(ctx: &mut Ctx, v: &mut BitVec, rounds: usize, most: [u64; SINGLE.len()]) -> [u64; SINGLE.len()] {
    let n = v.len();
    let mut w = [0; SINGLE.len()];
    for q in 0..rounds {
        let i = match q % 5 {
            0 => ctx.rng.below(n.min(600)),
            1 => n - 1 - ctx.rng.below(n.min(600)),
            _ => ctx.rng.below(n),
        };
        let j = ctx.rng.incl(i + 1, n);
        let val = ctx.rng.bool();
        let mut put = |k: usize, c: u64| w[k] = u64::max(w[k], c);
        put(0, cost_up_to(most[0], || v.get(black_box(i))).1);
        put(2, cost_up_to(most[2], || v.set(black_box(i), val)).1);
        put(3, cost_up_to(most[3], || v.flip(black_box(i))).1);
        put(4, cost_up_to(most[4], || v.slice(black_box(i)..j).len()).1);
        put(5, cost_up_to(most[5], || v.slice_mut(black_box(i)..j).len()).1);
        put(6, cost_up_to(most[6], || v.split_at(black_box(i)).0.len()).1);
        put(7, cost_up_to(most[7], || v.split_at_mut(black_box(i)).0.len()).1);
        put(8, cost_up_to(most[8], || (black_box(&*v).len(), black_box(&*v).is_empty())).1);
        put(9, cost_up_to(most[9], || v.iter().len()).1);
        let mut it = v.iter();
        if i >= 2 {
            it.nth(i.min(5_000) - 1);
        }
        put(10, cost_up_to(most[10], || it.next()).1);
        put(11, cost_up_to(most[11], || it.len()).1);
        let s = v.slice(i..j);
        put(1, cost_up_to(most[1], || s.get(black_box((j - i) / 2))).1);
        put(16, cost_up_to(most[16], || s.iter().len()).1);
        let mut it = s.iter();
        it.nth(ctx.rng.below(1000));
        put(15, cost_up_to(most[15], || (it.next(), it.size_hint())).1);
        let t = s.slice(..);
        let t = t.slice((j - i) / 2..);
        put(14, cost_up_to(most[14], || t.get(black_box(0))).1);
        let mut s = v.slice_mut(i..j);
        put(12, cost_up_to(most[12], || s.set(black_box((j - i) / 3), val)).1);
        let (mut a, mut b) = v.split_at_mut(i);
        put(13, cost_up_to(most[13], || {
            b.set_bit(black_box(j - i - 1), val);
            if i > 0 {
                a.flip_bit(i - 1);
            }
        }).1);
    }
    ctx.ev("counted access", (rounds * SINGLE.len()) as u64);
    w
}

fn bit_accesses(ctx: &mut Ctx) -> R {
    let kind = ctx.idx % Bits::KINDS;
    let e = [17usize, 20, 22, 25][ctx.idx / 2 % 4];
    let n = (1 << e) + ctx.rng.below(1 << e);
    let m = 700 + ctx.rng.below(500);
    ctx.desc(|| format!("instructions of single accesses in {n} bits against {m} bits, pattern {kind}"));
    ctx.distinct(n as u64);
    let mut v = make_bulk(&Bits::pattern(kind, m, &mut ctx.rng));
    let small = singles(ctx, &mut v, 80, [ENOUGH; SINGLE.len()]);
    let mut v = make_bulk(&Bits::pattern(kind, n, &mut ctx.rng));
    let large = singles(ctx, &mut v, 80, small.map(limit));
    for (k, what) in SINGLE.iter().enumerate() {
        ensure!(large[k] <= limit(small[k]), "{what}: up to {} instructions in {m} bits but more than {} in {n} bits", small[k], limit(small[k]));
        ctx.note_max("instructions of the most expensive access", large[k]);
    }
    Ok(())
}

const INTS: [&str; 6] = ["get", "set", "is_empty", "creating an iterator", "next", "len of an iterator"];

fn int_singles(ctx: &mut Ctx, v: &mut IntVec, width: usize, rounds: usize, most: [u64; INTS.len()]) -> [u64; INTS.len()] {
    let n = v.iter().len();
    let mut w = [0; INTS.len()];
    for q in 0..rounds {
        let i = match q % 4 {
            0 => ctx.rng.below(n.min(100)),
            1 => n - 1 - ctx.rng.below(n.min(100)),
            _ => ctx.rng.below(n),
        };
        let val = ctx.rng.u64() as usize & max_of(width);
        let mut put = |k: usize, c: u64| w[k] = u64::max(w[k], c);
        put(0, cost_up_to(most[0], || v.get(black_box(i))).1);
        put(1, cost_up_to(most[1], || v.set(black_box(i), val)).1);
        put(2, cost_up_to(most[2], || black_box(&*v).is_empty()).1);
        put(3, cost_up_to(most[3], || v.iter().len()).1);
        let mut it = v.iter();
        it.nth(i.min(5_000));
        put(4, cost_up_to(most[4], || it.next()).1);
        put(5, cost_up_to(most[5], || (it.len(), it.size_hint())).1);
    }
    ctx.ev("counted access", (rounds * INTS.len()) as u64);
    w
}

fn filled(ctx: &mut Ctx, width: usize, n: usize) -> IntVec {
    let mut v = IntVec::new(width);
    for _ in 0..n {
        v.push(ctx.rng.u64() as usize & max_of(width));
    }
    v
}

fn int_accesses(ctx: &mut Ctx) -> R {
    let width = ctx.idx % 64 + 1;
    let n = (1 << 16) + ctx.rng.below(1 << 20);
    let m = 60 + ctx.rng.below(100);
    ctx.desc(|| format!("instructions of single accesses in {n} integers against {m} integers of {width} bits"));
    ctx.distinct(n as u64);
    let mut v = filled(ctx, width, m);
    let small = int_singles(ctx, &mut v, width, 60, [ENOUGH; INTS.len()]);
    let mut v = filled(ctx, width, n);
    let large = int_singles(ctx, &mut v, width, 60, small.map(limit));
    for (k, what) in INTS.iter().enumerate() {
        ensure!(large[k] <= limit(small[k]), "{what}: up to {} instructions in {m} integers but more than {} in {n} integers", small[k], limit(small[k]));
        ctx.note_max("instructions of the most expensive access", large[k]);
    }
    Ok(())
}

const BULK: [&str; 22] = [
    "creating", "building a rank structure", "building a structure with linear search", "building a structure with binary search",
    "copying", "comparing equal vectors", "comparing equal views", "formatting", "iterating", "iterating by value", "getting each bit",
    "setting each bit", "skipping to the last bit", "iterating over a view", "comparing vectors with different last bits",
    "ranking at each position", "pushing", "pushing with a capacity", "iterating over integers", "iterating over integers by value",
    "getting each integer", "formatting integers",
];

struct Input {
    v: BitVec,
    w: BitVec,
    /// differs from `v` in the last bit
    x: BitVec,
    ints: IntVec,
    width: usize,
    n: usize,
    values: Vec<usize>,
}

fn input(kind: usize, n: usize, width: usize, rng: &mut Rng) -> Input {
    let b = Bits::pattern(kind, n, rng);
    let v = make_bulk(&b);
    let mut x = make_bulk(&b);
    x.flip(n - 1);
    let mut ints = IntVec::new(width);
    // never more bits than in the vector
    let values: Vec<usize> = (0..n / width.max(8)).map(|_| rng.u64() as usize & max_of(width)).collect();
    for x in &values {
        ints.push(*x);
    }
    Input { w: v.clone(), v, x, ints, width, n, values }
}

fn pushed(mut v: IntVec, values: &[usize]) -> IntVec {
    for x in values {
        v.push(*x);
    }
    v
}

/// One bulk operation; what it gives is only used to keep the optimiser from removing it.
fn bulk(k: usize, i: &mut Input) -> usize {
    let n = i.n;
    match k {
        0 => black_box(BitVec::new(black_box(n))).len(),
        1 => black_box(FlatPopcount::<()>::new(&i.v)).len(),
        2 => black_box(FlatPopcount::<LinearSearch>::new(&i.v)).len(),
        3 => black_box(FlatPopcount::<BinarySearch>::new(&i.v)).len(),
        4 => black_box(i.v.clone()).len(),
        5 => (**black_box(&i.v) == **black_box(&i.w)) as usize,
        6 => (black_box(&i.v).slice(1..) == black_box(&i.w).slice(1..)) as usize,
        7 => format!("{:?}", black_box(&i.v)).len(),
        8 => i.v.iter().map(|b| b as usize).sum(),
        9 => i.v.clone().into_iter().map(|b| b as usize).sum(),
        10 => (0..n).filter(|j| i.v.get(*j)).count(),
        11 => {
            for j in 0..n {
                i.v.set(j, j % 3 == 1);
            }
            0
        }
        12 => black_box(&i.v).iter().nth(n - 1).unwrap() as usize,
        13 => i.v.slice(n / 16..n - n / 16).iter().filter(|b| *b).count(),
        14 => (**black_box(&i.v) == **black_box(&i.x)) as usize,
        15 => {
            let f = FlatPopcount::<()>::new(&i.v);
            (0..n).fold(0, |a, j| a ^ f.rank::<true>(j))
        },
        16 => black_box(pushed(IntVec::new(i.width), &i.values)).iter().len(),
        17 => black_box(pushed(IntVec::with_capacity(i.width, i.values.len() / 3), &i.values)).iter().len(),
        18 => i.ints.iter().fold(0, |a, b| a ^ b),
        19 => pushed(IntVec::new(i.width), &i.values).into_iter().fold(0, |a, b| a ^ b),
        20 => (0..i.values.len()).fold(0, |a, j| a ^ i.ints.get(j)),
        _ => format!("{:?}", black_box(&i.ints)).len(),
    }
}

/// Four times the input may execute six times the instructions, and a bit more for short inputs.
fn counted(ctx: &mut Ctx) -> R {
    let k = ctx.idx % BULK.len();
    let kind = [4usize, 1, 0][ctx.idx / BULK.len() % 3];
    let width = if ctx.idx < BULK.len() { 64 } else { ctx.rng.incl(1, 64) };
    let n = 1_500 + ctx.rng.below(if ctx.thorough { 8_000 } else { 1_500 });
    ctx.desc(|| format!("instructions of {} for {n} and {} bits, pattern {kind}, width {width}", BULK[k], 4 * n));
    ctx.distinct(mix(ctx.idx as u64, n as u64));
    let mut a = input(kind, n, width, &mut ctx.rng);
    let mut b = input(kind, 4 * n, width, &mut ctx.rng);
    let small = cost_up_to(8 * ENOUGH, || bulk(k, &mut a)).1;
    ensure!(small < 8 * ENOUGH, "{}: more than {small} instructions for {n} bits", BULK[k]);
    // copying by the C library counts each byte in long blocks but each word in short ones
    let limit = 6 * small + 4 * n as u64 * 4;
    let large = cost_up_to(limit, || bulk(k, &mut b)).1;
    ensure!(large <= limit, "{}: {small} instructions for {n} bits but more than {limit} for {} bits", BULK[k], 4 * n);
    ctx.note_max("instructions of the most expensive bulk operation", large);
    ctx.ev("counted bulk operation", 1);
    Ok(())
}

fn cpu_us() -> u64 {
    extern "C" {
        fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as u64 * 1_000_000 + ts[1] as u64 / 1000
}

fn quickest(k: usize, i: &mut Input, times: usize) -> u64 {
    (0..times)
        .map(|_| {
            let t = cpu_us();
            black_box(bulk(k, i));
            cpu_us() - t
        })
        .min()
        .unwrap()
}

/// An input `r` times as long may take `4 * r` times as long (and 60 ms more), measured again
/// before it counts: what grows with the square would take `r * r` times as long.
fn timed(ctx: &mut Ctx) -> R {
    let k = ctx.idx % BULK.len();
    let kind = [4usize, 1, 0, 6][ctx.idx / BULK.len() % 4];
    let width = if ctx.idx < BULK.len() { 64 } else { ctx.rng.incl(1, 64) };
    let n = (1 << 21) + ctx.rng.below(1 << 16);
    let r = if k == 7 || k >= 16 { 16 } else { 64 };
    ctx.desc(|| format!("time of {} for {n} and {} bits, pattern {kind}, width {width}", BULK[k], r * n));
    ctx.distinct(mix(ctx.idx as u64, n as u64));
    // shorter ones first, so that what grows with the square is noticed before it takes forever
    for (n, r) in [(n >> 7, 8), (n, r)] {
        compare(ctx, k, kind, width, n, r)?;
    }
    Ok(())
}

fn compare(ctx: &mut Ctx, k: usize, kind: usize, width: usize, n: usize, r: usize) -> R {
    let mut a = input(kind, n, width, &mut ctx.rng);
    let mut b = input(kind, r * n, width, &mut ctx.rng);
    let mut seen = (0, 0);
    for round in 0..4 {
        let small = quickest(k, &mut a, 3 + 2 * round);
        let large = quickest(k, &mut b, 1 + round);
        if round == 0 {
            ctx.note_max("microseconds of the slowest bulk operation", large);
        }
        seen = (small, large);
        if large <= 4 * r as u64 * small + 60_000 {
            ctx.ev("timed bulk operation", 1);
            return Ok(());
        }
    }
    Err(format!("{}: {} us for {n} bits but {} us for {} bits", BULK[k], seen.0, seen.1, r * n))
}
