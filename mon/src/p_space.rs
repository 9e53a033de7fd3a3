//! Monitors for memory usage: everything allocated is observed by the allocator.

use crate::alloc;
use crate::core::*;
use crate::p_bits::{make, make_bulk};
use crate::p_int::{max_of, value};
use crate::p_rank::huge_vector;
use crate::Family;
use std::rc::Rc;
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C18", "bitvec", 8_000, 100_000, 0, bitvec_space),
        Family::new("C18", "rank_select", 600, 8_000, 0, rank_space),
        Family::new("C18", "rank_select_large", 14, 60, 0, rank_space_large).fixed(),
        Family::new("C18", "rank_select_huge", 1, 2, 0, rank_space_huge).heavy(),
        Family::new("C18", "intvec", 8_000, 100_000, 0, intvec_space),
        Family::new("C18", "intvec_large", 24, 200, 0, intvec_space_large),
        Family::new("C18", "queries", 4_000, 60_000, 0, query_space),
        Family::new("C18", "reading", 4_000, 60_000, 0, reading_space),
        Family::new("C18", "reading_long", 6, 40, 0, reading_long).fixed(),
        Family::new("C18", "rejected", 4_000, 60_000, 0, rejected_space),
    ]
}

/// Heap bytes held by the value that `f` makes, and how much was held at most while making it.
fn held<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let before = alloc::live();
    alloc::reset_peak();
    let t = f();
    (t, (alloc::live() - before) as usize, (alloc::peak() - before) as usize)
}

fn bitvec_space(ctx: &mut Ctx) -> R {
    let n = ctx.len(200_000);
    ctx.desc(|| format!("heap of a vector of {n} bits"));
    ctx.distinct(n as u64);
    let before = alloc::live();
    let (v, bytes, peak) = held(|| BitVec::new(n));
    let need = n.div_ceil(64) * 8;
    ensure!(bytes <= need + 8, "{n} bits take {bytes} bytes of heap instead of {need}");
    let (c, cb, _) = held(|| v.clone());
    ensure!(cb <= need + 8, "a copy of {n} bits takes {cb} bytes");
    let (_, s, _) = held(|| v.slice(..).len());
    ensure!(s == 0, "a view holds {s} bytes");
    drop(c);
    drop(v);
    ensure!(alloc::live() == before, "{} bytes remain after dropping a vector of {n} bits", alloc::live() - before);
    ctx.ev("measured value", 3);
    if n > 1 << 13 {
        ctx.note_max("most heap while creating a vector, in percent of its size", peak as u64 * 100 / need as u64);
    }
    Ok(())
}

fn structure<T>(ctx: &mut Ctx, v: &BitVec, n: usize, what: &str) -> R {
    let before = alloc::live();
    let (f, bytes, peak) = held(|| FlatPopcount::<T>::new(v));
    let data = n.div_ceil(8);
    // small inputs: a constant; otherwise less than 4 percent
    let limit = if n < 1 << 17 { data / 25 + 512 } else { data / 25 };
    ensure!(bytes <= limit, "{what}: the structure for {n} bits ({data} bytes) takes {bytes} bytes of heap, more than {limit}");
    drop(f);
    ensure!(alloc::live() == before, "{what}: {} bytes remain after dropping the structure for {n} bits", alloc::live() - before);
    if n >= 1 << 17 {
        ctx.note_max("largest overhead in units of 0.001 percent", (bytes as u64 * 100_000) / data as u64);
        ctx.note_max("most heap while building, in units of 0.001 percent", (peak as u64 * 100_000) / data as u64);
    }
    ctx.ev("measured structure", 1);
    Ok(())
}

fn rank_space(ctx: &mut Ctx) -> R {
    let n = ctx.len(1 << 18);
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    ctx.desc(|| format!("heap of the structure for {n} bits of pattern {kind}"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    structure::<LinearSearch>(ctx, &v, n, "linear")?;
    structure::<BinarySearch>(ctx, &v, n, "binary")
}

fn rank_space_large(ctx: &mut Ctx) -> R {
    // full vectors need the most samples; lengths just above powers of two need wide samples
    let e = 17 + ctx.idx / 2 % 7;
    let n = if ctx.idx % 2 == 0 { 1usize << e } else { (1 << e) + ctx.rng.below(1 << e) };
    let m = Bits::pattern(1, n, &mut ctx.rng);
    ctx.desc(|| format!("heap of the structure for {n} ones"));
    ctx.distinct(n as u64);
    let v = make_bulk(&m);
    structure::<()>(ctx, &v, n, "full")
}

fn rank_space_huge(ctx: &mut Ctx) -> R {
    let n = [(1usize << 31) + 17, (1 << 33) + 1][ctx.idx % 2];
    ctx.desc(|| format!("heap of the structure for {n} bits"));
    ctx.distinct(n as u64);
    let v = huge_vector(n);
    structure::<()>(ctx, &v, n, "huge")
}

fn intvec_space_large(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 64);
    let n = ctx.rng.incl(100_000, 40_000_000 / w);
    intvec_case(ctx, w, n)
}

fn intvec_space(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 64);
    let n = ctx.len(5000);
    intvec_case(ctx, w, n)
}

fn intvec_case(ctx: &mut Ctx, w: usize, n: usize) -> R {
    ctx.desc(|| format!("heap of {n} integers of {w} bits"));
    ctx.distinct(mix(w as u64, n as u64));
    let before = alloc::live();
    let mut v = IntVec::new(w);
    let fresh = (alloc::live() - before) as usize;
    ensure!(fresh <= 256, "an empty vector of {w}-bit integers takes {fresh} bytes");
    for i in 0..n {
        v.push(i & max_of(w));
    }
    let bytes = (alloc::live() - before) as usize;
    let need = (n * w).div_ceil(64) * 8;
    ensure!(bytes <= 3 * need + 256, "{n} integers of {w} bits ({need} bytes) take {bytes} bytes of heap");
    let at = alloc::live();
    for _ in 0..50 {
        if n > 0 {
            let (i, x) = (ctx.index(n), value(ctx, w));
            v.set(i, x);
            v.get(i);
        }
    }
    ensure!(v.iter().count() == n, "count");
    ensure!(alloc::live() == at, "accessing the vector changed its heap usage");
    drop(v);
    ensure!(alloc::live() == before, "{} bytes remain after dropping {n} integers", alloc::live() - before);
    // enough capacity from the start: no growth
    let before = alloc::live();
    let mut v = IntVec::with_capacity(w, n);
    for i in 0..n {
        v.push(i & max_of(w));
    }
    let bytes = (alloc::live() - before) as usize;
    ensure!(bytes <= 3 * need + 256, "{n} integers of {w} bits with capacity take {bytes} bytes of heap");
    let mut it = v.into_iter();
    for _ in 0..n / 2 {
        it.next();
    }
    drop(it);
    ensure!(alloc::live() == before, "{} bytes remain after dropping a consumed vector", alloc::live() - before);
    if need > 1250 {
        ctx.note_max("largest heap of an integer vector in percent of the needed bytes", bytes as u64 * 100 / need as u64);
    }
    ctx.ev("measured vector", 2);
    Ok(())
}

/// Queries and rejected calls do not accumulate memory.
fn query_space(ctx: &mut Ctx) -> R {
    let n = ctx.len(20_000);
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    let mut v = make(&m);
    ctx.desc(|| format!("heap while querying {n} bits"));
    ctx.distinct(m.hash());
    let before = alloc::live();
    {
        let f = FlatPopcount::<LinearSearch>::new(&v);
        let at = alloc::live();
        for _ in 0..100 {
            let i = ctx.any_index(n);
            let _ = outcome(|| f.rank::<true>(i.min(n)));
            let _ = outcome(|| f.select(i));
        }
        let _ = outcome(|| f.rank::<true>(n + 1));
        ensure!(alloc::live() == at, "queries on {n} bits left {} bytes on the heap", alloc::live() - at);
    }
    for _ in 0..50 {
        let i = ctx.any_index(n);
        let _ = outcome(|| v.flip_bit(i));
        let _ = outcome(|| v.slice_mut(i.min(n)..).iter().count());
        if n > 0 {
            let _ = outcome(|| v.split_at_mut(i).0.len());
        }
    }
    ensure!(alloc::live() == before, "accesses to {n} bits left {} bytes on the heap", alloc::live() - before);
    ctx.ev("measured query", 350);
    Ok(())
}

/// Runs `f`, which must not allocate.
fn without<T>(ctx: &mut Ctx, what: &str, n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let (live, before) = (alloc::live(), alloc::allocations());
    let t = f();
    let made = alloc::allocations() - before;
    ensure!(made == 0 && alloc::live() == live, "{what} of {n} elements makes {made} allocations");
    ctx.ev("reading call watched by the allocator", 1);
    Ok(t)
}

fn structure_reading<T: succinct_neo::rank_select::flat_popcount::SelectStrategy>(ctx: &mut Ctx, v: &BitVec, n: usize) -> R {
    let f = FlatPopcount::<T>::new(v);
    for q in 0..12 {
        let i = if q == 0 { n } else { ctx.rng.incl(0, n) };
        without(ctx, "rank", n, || f.rank::<true>(i))?;
        without(ctx, "rank of zeros", n, || f.rank::<false>(i))?;
        without(ctx, "rank_dyn", n, || f.rank_dyn(i, q % 2 == 0))?;
        let k = ctx.any_index(n);
        without(ctx, "select", n, || f.select(k))?;
    }
    without(ctx, "len", n, || f.len() + f.is_empty() as usize)?;
    let before = alloc::live();
    drop(f);
    ensure!(alloc::live() < before || n == 0, "the structure released nothing");
    Ok(())
}

/// Queries and iteration allocate nothing at all, not even for a moment.
fn reading_space(ctx: &mut Ctx) -> R {
    let n = ctx.len(20_000);
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    let v = make(&m);
    let other = v.clone();
    ctx.desc(|| format!("allocations while reading {n} bits"));
    ctx.distinct(m.hash());
    structure_reading::<LinearSearch>(ctx, &v, n)?;
    structure_reading::<BinarySearch>(ctx, &v, n)?;
    for _ in 0..12 {
        let a = ctx.rng.incl(0, n);
        let b = ctx.rng.incl(a, n);
        let s = without(ctx, "slice", n, || v.slice(a..b))?;
        without(ctx, "slice of a view", b - a, || s.slice(..).len())?;
        without(ctx, "iteration", b - a, || s.iter().filter(|x| *x).count())?;
        without(ctx, "iteration by nth", b - a, || s.iter().nth(a))?;
        without(ctx, "comparison", b - a, || s == other.slice(a..b))?;
        without(ctx, "copy of a view", b - a, || s.clone().len())?;
        without(ctx, "iteration by value", b - a, || s.into_iter().fold(0, |x, y| x + y as usize))?;
        if a < n {
            without(ctx, "get", n, || v.get(a) ^ v.get_bit(a) ^ unsafe { v.get_unchecked(a) })?;
            without(ctx, "split", n, || {
                let (l, r) = v.split_at(a);
                l.iter().count() + r.iter().count()
            })?;
        }
    }
    without(ctx, "comparison", n, || *v == *other)?;
    without(ctx, "iteration", n, || (&v).into_iter().filter(|x| *x).count())?;
    without(ctx, "raw", n, || v.raw().len() + AsRef::<[usize]>::as_ref(&v).len())?;
    let w = ctx.rng.incl(1, 64);
    let len = ctx.len(2000);
    let mut iv = IntVec::new(w);
    for i in 0..len {
        iv.push(i & max_of(w));
    }
    for _ in 0..10 {
        if len > 0 {
            let i = ctx.rng.below(len);
            without(ctx, "integer get", len, || iv.get(i) ^ unsafe { iv.get_unchecked(i) })?;
        }
    }
    without(ctx, "integer iteration", len, || iv.iter().fold(0usize, |a, b| a ^ b))?;
    without(ctx, "integer iteration", len, || (&iv).into_iter().nth(len / 2))?;
    without(ctx, "raw data", len, || iv.raw_data().len() + iv.is_empty() as usize)?;
    let mut it = iv.into_iter();
    without(ctx, "consuming integer iteration", len, || it.by_ref().fold(0usize, |a, b| a ^ b))?;
    Ok(())
}

/// The same for long vectors.
fn reading_long(ctx: &mut Ctx) -> R {
    let n = (1usize << [17, 20, 22, 23, 24, 21][ctx.idx % 6]) + ctx.rng.below(5000);
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    let mut v = make_bulk(&m);
    let other = v.clone();
    ctx.desc(|| format!("allocations while reading {n} bits"));
    ctx.distinct(m.hash());
    structure_reading::<LinearSearch>(ctx, &v, n)?;
    structure_reading::<BinarySearch>(ctx, &v, n)?;
    for (a, b) in [(0, n), (1, n), (ctx.rng.below(n / 2), n - 1)] {
        let s = without(ctx, "slice", n, || v.slice(a..b))?;
        without(ctx, "an iterator", b - a, || s.iter().take(1000).filter(|x| *x).count())?;
        without(ctx, "iteration by nth", b - a, || s.iter().nth(a.min(100_000)))?;
        without(ctx, "split", b - a, || {
            let (l, r) = s.split_at((b - a) / 3);
            l.iter().len() + r.iter().len()
        })?;
        without(ctx, "iteration by value", b - a, || s.into_iter().take(1000).count())?;
    }
    without(ctx, "comparison", n, || *v == *other)?;
    without(ctx, "iteration", n, || (&v).into_iter().filter(|x| *x).count())?;
    for _ in 0..100 {
        let i = ctx.rng.below(n);
        without(ctx, "get", n, || v.get(i) ^ v.get_bit(i) ^ unsafe { v.get_unchecked(i) })?;
        without(ctx, "flip and set", n, || {
            v.flip(i);
            v.set(i, true);
            v.slice_mut(i..).flip(0);
        })?;
    }
    let w = ctx.rng.incl(1, 64);
    let len = n / 64;
    let mut iv = IntVec::new(w);
    (0..len).for_each(|i| iv.push(i & max_of(w)));
    for _ in 0..100 {
        let i = ctx.rng.below(len);
        without(ctx, "integer get", len, || iv.get(i))?;
        without(ctx, "integer set", len, || iv.set(i, 1))?;
    }
    without(ctx, "integer iteration", len, || iv.iter().fold(0usize, |a, b| a ^ b))?;
    let mut it = iv.into_iter();
    without(ctx, "consuming integer iteration", len, || it.by_ref().fold(0usize, |a, b| a ^ b))?;
    Ok(())
}

/// Values that went through rejected calls give everything back.
fn rejected_space(ctx: &mut Ctx) -> R {
    let words = ctx.rng.below(40);
    let n = words * 64;
    ctx.desc(|| format!("heap after rejected calls on {words} words"));
    ctx.distinct(mix(words as u64, ctx.idx as u64));
    let before = alloc::live();
    for _ in 0..6 {
        let (s, e) = (ctx.any_index(n), ctx.any_index(n));
        let i = ctx.any_index(n);
        let kind = ctx.rng.below(8);
        match kind {
            0 => {
                // contents that exceed their words
                let _ = outcome(|| {
                    let mut v = BitVec::new(0);
                    *v = BitSlice::new(vec![!0usize; words].into_boxed_slice(), s.min(e), e.min(n + 70));
                    let f = FlatPopcount::<LinearSearch>::new(&v);
                    f.rank::<true>(i) + f.select(i).unwrap_or(0)
                });
            }
            1 => {
                let _ = outcome(|| BitSlice::new(vec![0usize; words].into_boxed_slice(), s, e).into_iter().take(100_000).last());
            }
            2 => {
                let _ = outcome(|| Rc::new(BitSlice::new(vec![0usize; words].into_boxed_slice(), s, e)).get_bit(i));
            }
            3 => {
                let w = if ctx.rng.bool() { ctx.rng.incl(1, 64) } else { ctx.any_index(65) };
                let x = ctx.rng.u64() as usize;
                let _ = outcome(|| {
                    let mut v = IntVec::with_capacity(w, words);
                    for k in 0..words {
                        v.push(k & 1);
                    }
                    v.push(x);
                    v.set(i, x);
                    let mut it = v.into_iter();
                    it.nth(i);
                    assert!(it.next().is_some());
                });
            }
            4 => {
                let _ = outcome(|| {
                    let mut v = BitVec::new(n);
                    let c = v.clone();
                    let (mut l, mut r) = v.split_at_mut(i);
                    l.flip(s);
                    r.flip(e);
                    c.get(s)
                });
            }
            5 => {
                let _ = outcome(|| {
                    let v = BitVec::new(n);
                    let f = FlatPopcount::<BinarySearch>::new(&v);
                    f.rank::<false>(i)
                });
            }
            6 => {
                let _ = outcome(|| {
                    let mut b = Box::new(BitVec::new(n));
                    b.slice_mut(s.min(e)..e).set(i, true);
                    format!("{b:?}").len()
                });
            }
            _ => {
                // a content that fails while it is listed
                let mut v = BitVec::new(0);
                *v = BitSlice::new(vec![0usize; words].into_boxed_slice(), 0, n + 1);
                let _ = outcome(|| format!("{v:?}"));
                let _ = outcome(|| *v == *v);
            }
        }
        ensure!(alloc::live() == before, "{} bytes remain on the heap after a rejected call (kind {kind})", alloc::live() - before);
        ctx.ev("rejected call watched by the allocator", 1);
    }
    Ok(())
}
