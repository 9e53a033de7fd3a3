//! Monitors for values shared between threads, and for values used by different threads at once.

use crate::core::*;
use crate::p_bits::{make, random_bits};
use crate::p_int::{max_of, value};
use crate::p_rank::Ref;
use crate::Family;
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C20", "shared", 1_200, 12_000, 3, shared),
        Family::new("C20", "separate", 1_200, 12_000, 3, separate),
    ]
}

/// Whether the types may be shared is decided by a separate compile probe. Here they are shared
/// in any case, so that the interleaving is observed.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

fn join(hs: Vec<std::thread::ScopedJoinHandle<'_, (R, u64)>>) -> Result<u64, String> {
    let mut n = 0;
    for h in hs {
        match h.join() {
            Ok((r, k)) => {
                r?;
                n += k;
            }
            Err(_) => return Err(format!("a thread panicked: {}", last_panic())),
        }
    }
    Ok(n)
}

fn shared(ctx: &mut Ctx) -> R {
    let mut m = random_bits(ctx, ctx.scale(12_000, 300));
    if m.n < 2 {
        m = Bits::pattern(4, 200, &mut ctx.rng);
    }
    let w = ctx.rng.incl(1, 64);
    let mut iv = IntVec::new(w);
    let mut im = Vec::new();
    for _ in 0..ctx.scale(200, 20) {
        let x = value(ctx, w);
        iv.push(x);
        im.push(x);
    }
    let v = make(&m);
    let f = FlatPopcount::<LinearSearch>::new(&v);
    let g = FlatPopcount::<BinarySearch>::new(&v);
    let r = Ref::new(&m);
    let n = m.n;
    let ones = r.pos.len();
    let threads = ctx.scale(4, 3);
    let steps = ctx.scale(200, 12);
    ctx.desc(|| format!("{threads} threads reading {n} bits, {} integers and two rank structures", im.len()));
    ctx.distinct(m.hash());
    let seed = ctx.rng.u64();
    let a = Share((&v, &f, &g, &iv));
    let (ar, mr, imr, rr) = (&a, &m, &im, &r);
    let done = std::thread::scope(|s| {
        let hs = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let share: &Share<_> = ar;
                    let (v, f, g, iv): (&BitVec, &FlatPopcount<LinearSearch>, &FlatPopcount<BinarySearch>, &IntVec) = share.0;
                    let mut rng = Rng::new(mix(seed, t as u64));
                    let mut go = || -> R {
                        for _ in 0..steps {
                            let i = rng.below(n);
                            ensure!(v.get_bit(i) == mr.get(i), "thread {t}: bit {i} reads {}", v.get_bit(i));
                            ensure!(f.rank::<true>(i) == rr.rank1(i), "thread {t}: rank at {i} is {}", f.rank::<true>(i));
                            ensure!(g.rank::<false>(i) == i - rr.rank1(i), "thread {t}: rank of zeros at {i} is {}", g.rank::<false>(i));
                            let k = rng.below(ones + 2);
                            let e = rr.pos.get(k).copied();
                            ensure!(f.select(k) == e && g.select(k) == e, "thread {t}: select({k}) is not {e:?}");
                            let x = rng.below(imr.len());
                            ensure!(iv.get(x) == imr[x], "thread {t}: integer {x} is {:#x}", iv.get(x));
                            let j = rng.incl(i, n.min(i + 70));
                            ensure!(v.slice(i..j).iter().eq((i..j).map(|q| mr.get(q))), "thread {t}: view {i}..{j}");
                            ensure!(v.slice(i..j) == v.slice(i..j), "thread {t}: view {i}..{j} is not equal to itself");
                        }
                        ensure!(iv.iter().eq(imr.iter().copied()), "thread {t}: iteration");
                        // a structure of its own for the shared vector
                        let own = FlatPopcount::<BinarySearch>::new(v);
                        ensure!(own.rank::<true>(n) == ones, "thread {t}: own structure");
                        Ok(())
                    };
                    (go(), steps as u64 * 9)
                })
            })
            .collect();
        join(hs)
    })?;
    ctx.ev("concurrent read", done);
    Ok(())
}

fn separate(ctx: &mut Ctx) -> R {
    let threads = ctx.scale(4, 3);
    let steps = ctx.scale(150, 12);
    let max = ctx.scale(6000, 200);
    let seed = ctx.rng.u64();
    ctx.desc(|| format!("{threads} threads, each with vectors of its own"));
    ctx.distinct(seed);
    let moved = Share(make(&Bits::pattern(4, 100, &mut ctx.rng)));
    let snapshot: Vec<bool> = moved.0.iter().collect();
    let done = std::thread::scope(|s| {
        let mut hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let mut rng = Rng::new(mix(seed, t as u64));
                    let mut go = || -> R {
                        let n = rng.incl(1, max);
                        let kind = rng.below(Bits::KINDS);
                        let mut m = Bits::pattern(kind, n, &mut rng);
                        let mut v = make(&m);
                        let w = rng.incl(1, 64);
                        let mut iv = IntVec::new(w);
                        let mut im: Vec<usize> = Vec::new();
                        for _ in 0..steps {
                            let i = rng.below(n);
                            match rng.below(4) {
                                0 => {
                                    v.flip_bit(i);
                                    m.flip(i);
                                }
                                1 => {
                                    let b = rng.bool();
                                    let j = rng.incl(i + 1, n);
                                    v.slice_mut(i..j).set(0, b);
                                    m.set(i, b);
                                }
                                2 => {
                                    let x = rng.u64() as usize & max_of(w);
                                    iv.push(x);
                                    im.push(x);
                                }
                                _ => {
                                    let (mut l, mut r) = v.split_at_mut(i);
                                    r.flip(0);
                                    m.flip(i);
                                    if i > 0 {
                                        l.flip(i - 1);
                                        m.flip(i - 1);
                                    }
                                }
                            }
                            ensure!(v.get_bit(i) == m.get(i), "thread {t}: bit {i} of {n} is {}", v.get_bit(i));
                        }
                        ensure!(v.iter().eq(m.iter()), "thread {t}: bits differ at the end");
                        ensure!(iv.iter().eq(im.iter().copied()), "thread {t}: integers differ at the end");
                        let r = Ref::new(&m);
                        let f = FlatPopcount::<LinearSearch>::new(&v);
                        for _ in 0..steps {
                            let i = rng.incl(0, n);
                            ensure!(f.rank::<true>(i) == r.rank1(i), "thread {t}: rank at {i} is {}", f.rank::<true>(i));
                            let k = rng.below(r.pos.len() + 1);
                            ensure!(f.select(k) == r.pos.get(k).copied(), "thread {t}: select({k}) is {:?}", f.select(k));
                        }
                        let view = BitSlice::new(&*v, 0, n);
                        ensure!(view == *v, "thread {t}: view of the vector differs");
                        Ok(())
                    };
                    (go(), 3 * steps as u64)
                })
            })
            .collect();
        // a vector that was made by another thread
        hs.push(s.spawn(move || {
            let moved = moved;
            let Share(mut v) = moved;
            let same = v.iter().eq(snapshot.iter().copied());
            v.flip(0);
            let ok = same && v.get(0) != snapshot[0];
            (if ok { Ok(()) } else { Err("a vector changed when it was moved to another thread".into()) }, 2)
        }));
        join(hs)
    })?;
    ctx.ev("access in own thread", done);
    Ok(())
}
