//! Monitors for bit vectors, views and their backings.

use crate::core::*;
use crate::Family;
use std::rc::Rc;
use succinct_neo::bit_vec::slice::{BitSlice, Iter};
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C02", "every_index", 261, 600, 6, every_index).fixed(),
        Family::new("C02", "history", 24_000, 400_000, 8, history),
        Family::new("C02", "long_history", 160, 4_000, 0, long_history),
        Family::new("C02", "large", 24, 300, 0, large_history).fixed(),
        Family::new("C02", "huge", 2, 4, 0, huge_bits).heavy(),
        Family::new("C02", "replaced", 6_000, 100_000, 4, part_history),
        Family::new("C03", "bitvec", 12_000, 200_000, 6, oob_bitvec),
        Family::new("C03", "views", 12_000, 200_000, 6, oob_views),
        Family::new("C03", "primitives", 3_000, 50_000, 4, oob_prims),
        Family::new("C03", "words", 6_000, 100_000, 4, oob_words),
        Family::new("C03", "exceeding_views", 6_000, 100_000, 6, oob_exceeding),
        Family::new("C03", "bitvec_long", 16, 200, 0, oob_bitvec).wide(),
        Family::new("C03", "views_long", 16, 200, 0, oob_views).wide(),
        Family::new("C03", "huge", 1, 2, 0, oob_huge).heavy(),
        Family::new("C03", "replaced", 6_000, 100_000, 4, part_oob),
        Family::new("C04", "all_ranges", 60, 120, 8, all_ranges).fixed(),
        Family::new("C04", "nested", 30_000, 600_000, 8, nested),
        Family::new("C04", "explicit", 12_000, 200_000, 4, explicit_views),
        Family::new("C04", "nested_long", 24, 300, 0, nested).wide(),
        Family::new("C04", "huge", 1, 2, 0, huge_views).heavy(),
        Family::new("C04", "replaced", 6_000, 100_000, 4, part_views),
        Family::new("C05", "all_splits", 150, 300, 6, all_splits).fixed(),
        Family::new("C05", "interleaved", 24_000, 400_000, 12, interleaved),
        Family::new("C05", "interleaved_long", 24, 300, 0, interleaved).wide(),
        Family::new("C05", "huge", 1, 2, 0, huge_splits).heavy(),
        Family::new("C05", "replaced", 6_000, 100_000, 4, part_splits),
        Family::new("C06", "all_lengths", 300, 700, 8, iter_all_lengths).fixed(),
        Family::new("C06", "views", 16_000, 300_000, 8, iter_views),
        Family::new("C06", "long", 40, 600, 0, iter_long),
        Family::new("C06", "huge", 1, 2, 0, huge_iter).heavy(),
        Family::new("C06", "replaced", 6_000, 100_000, 4, part_iter),
        Family::new("C07", "pairs", 30_000, 500_000, 12, eq_pairs),
        Family::new("C07", "one_bit", 260, 600, 6, eq_one_bit).fixed(),
        Family::new("C07", "relatives", 4_000, 60_000, 8, eq_relatives),
        Family::new("C07", "relatives_long", 24, 300, 0, eq_relatives).wide(),
        Family::new("C07", "primitives", 6_000, 100_000, 6, eq_prims),
        Family::new("C07", "same_vector", 8_000, 120_000, 8, eq_same_vector),
        Family::new("C07", "long", 60, 1_000, 0, eq_long),
        Family::new("C07", "same_vector_long", 24, 300, 0, eq_same_vector).wide(),
        Family::new("C07", "huge", 1, 1, 0, eq_huge).heavy(),
        Family::new("C07", "replaced", 6_000, 100_000, 4, part_eq),
        Family::new("C08", "primitives_all", 256, 256, 4, prims_all).fixed(),
        Family::new("C08", "primitives", 12_000, 200_000, 6, prims_random),
        Family::new("C08", "words", 12_000, 200_000, 6, words_backing),
        Family::new("C08", "raw_layout", 12_000, 200_000, 6, raw_layout),
        Family::new("C08", "raw_layout_long", 24, 300, 0, raw_layout).wide(),
        Family::new("C08", "pointers", 12_000, 200_000, 6, pointers),
        Family::new("C09", "bitvec", 16_000, 300_000, 8, unchecked_bitvec),
        Family::new("C09", "views", 16_000, 300_000, 8, unchecked_views),
        Family::new("C09", "backings", 12_000, 200_000, 8, unchecked_backings),
        Family::new("C09", "ints", 12_000, 200_000, 8, crate::p_int::unchecked_ints),
        Family::new("C09", "bitvec_long", 16, 200, 0, unchecked_bitvec).wide(),
        Family::new("C09", "views_long", 16, 200, 0, unchecked_views).wide(),
        Family::new("C09", "ints_long", 16, 200, 0, crate::p_int::unchecked_ints).wide(),
        Family::new("C09", "huge", 1, 2, 0, unchecked_huge).heavy(),
        Family::new("C09", "replaced", 6_000, 100_000, 4, part_unchecked),
        Family::new("C23", "clones", 16_000, 300_000, 6, clones),
        Family::new("C23", "clones_long", 16, 200, 0, clones).wide(),
        Family::new("C23", "huge", 1, 1, 0, clone_huge).heavy(),
        Family::new("C23", "debug", 6_000, 60_000, 6, debug_text),
        Family::new("C23", "debug_long", 5, 10, 0, debug_long).fixed(),
        Family::new("C23", "replaced", 6_000, 100_000, 4, part_clones),
    ]
}

pub fn make(b: &Bits) -> BitVec {
    let mut v = BitVec::new(b.n);
    for (wi, w) in b.w.iter().enumerate() {
        let mut w = *w;
        while w != 0 {
            v.set_bit(wi * 64 + w.trailing_zeros() as usize, true);
            w &= w - 1;
        }
    }
    v
}

/// A vector with the same content, built by replacing the storage as a whole.
pub fn make_bulk(b: &Bits) -> BitVec {
    let mut v = BitVec::new(0);
    let words: Vec<usize> = b.words().iter().map(|w| *w as usize).collect();
    *v = BitSlice::new(words.into_boxed_slice(), 0, b.n);
    v
}

/// Now and then the same content in a vector that was created for another length.
pub fn adopted(ctx: &mut Ctx, mut v: BitVec) -> BitVec {
    if ctx.rng.chance(3, 4) {
        return v;
    }
    let n = ctx.rng.below(2 * v.len().min(2000) + 70);
    let mut w = BitVec::new(n);
    std::mem::swap(&mut *v, &mut *w);
    w
}

pub fn random_bits(ctx: &mut Ctx, max: usize) -> Bits {
    let n = ctx.len(max);
    let kind = ctx.rng.below(Bits::KINDS);
    Bits::pattern(kind, n, &mut ctx.rng)
}

/// Up to `full` bits, now and then many more; up to `small` bits in an interpreter.
pub fn random_bits_up_to(ctx: &mut Ctx, full: usize, small: usize) -> Bits {
    let max = ctx.scale(full, small);
    let max = ctx.roomy(max);
    random_bits(ctx, max)
}

// How a user can reach a bit of a BitVec.
const WAYS: usize = 5;

fn set_via(v: &mut BitVec, how: usize, i: usize, b: bool) {
    match how % WAYS {
        0 => v.set_bit(i, b),
        1 => v.set(i, b),
        2 => BitModify::set_bit(&mut **v, i, b),
        3 => AsMut::<BitSlice<Box<[usize]>>>::as_mut(v).set_bit(i, b),
        _ => {
            let mut r = v;
            BitModify::set_bit(&mut r, i, b)
        }
    }
}

fn flip_via(v: &mut BitVec, how: usize, i: usize) {
    match how % WAYS {
        0 => v.flip_bit(i),
        1 => v.flip(i),
        2 => BitModify::flip_bit(&mut **v, i),
        3 => AsMut::<BitSlice<Box<[usize]>>>::as_mut(v).flip(i),
        _ => {
            let mut r = v;
            BitModify::flip_bit(&mut r, i)
        }
    }
}

fn get_via(v: &BitVec, how: usize, i: usize) -> bool {
    match how % WAYS {
        0 => v.get(i),
        1 => v.get_bit(i),
        2 => AsRef::<BitSlice<Box<[usize]>>>::as_ref(v).get(i),
        3 => BitGet::get_bit(&&**v, i),
        _ => v.backing().get_bit(i),
    }
}

fn audit(ctx: &mut Ctx, v: &BitVec, m: &Bits, when: &str) -> R {
    ctx.stats.audits += 1;
    ensure!(v.len() == m.n, "{when}: length is {} instead of {}", v.len(), m.n);
    ensure!(v.is_empty() == (m.n == 0), "{when}: is_empty is {} for {} bits", v.is_empty(), m.n);
    for i in 0..m.n {
        ensure!(v.get_bit(i) == m.get(i), "{when}: bit {i} of {} reads {} instead of {}", m.n, v.get_bit(i), m.get(i));
    }
    ctx.ev("audited bit", m.n as u64);
    Ok(())
}

// ---------------------------------------------------------------- C02

fn every_index(ctx: &mut Ctx) -> R {
    let n = if ctx.small { ctx.idx * 13 } else { ctx.idx };
    ctx.desc(|| format!("n={n}: set, flip, clear every index in turn, full audit after each"));
    ctx.distinct(n as u64);
    let mut v = BitVec::new(n);
    let mut m = Bits::zeros(n);
    audit(ctx, &v, &m, "fresh")?;
    for i in 0..n {
        set_via(&mut v, i, i, true);
        m.set(i, true);
        audit(ctx, &v, &m, &format!("after set({i}, true)"))?;
        set_via(&mut v, i + 1, i, true);
        audit(ctx, &v, &m, &format!("after setting {i} again"))?;
        flip_via(&mut v, i, i);
        m.flip(i);
        audit(ctx, &v, &m, &format!("after flip({i})"))?;
        flip_via(&mut v, i + 2, i);
        m.flip(i);
        if i % 3 != 0 {
            set_via(&mut v, i + 3, i, false);
            m.set(i, false);
        }
        audit(ctx, &v, &m, &format!("after flip({i}), set({i}, false)"))?;
    }
    ctx.ev("modification", 5 * n as u64);
    Ok(())
}

fn history(ctx: &mut Ctx) -> R {
    let max = ctx.scale(3000, 300);
    let steps = ctx.scale(160, 30);
    run_history(ctx, max, steps)
}

fn long_history(ctx: &mut Ctx) -> R {
    run_history(ctx, 60_000, 6_000)
}

fn large_history(ctx: &mut Ctx) -> R {
    run_history(ctx, 1 << 22, 1_500)
}

fn run_history(ctx: &mut Ctx, max: usize, steps: usize) -> R {
    // several vectors are alive at once and get replaced, so that storage is reused
    let k = ctx.rng.incl(1, 3);
    let mut vs: Vec<(BitVec, Bits)> = Vec::new();
    for _ in 0..k {
        let m = random_bits(ctx, max);
        let v = make(&m);
        let v = adopted(ctx, v);
        audit(ctx, &v, &m, "after filling")?;
        vs.push((v, m));
    }
    let lens: Vec<usize> = vs.iter().map(|x| x.1.n).collect();
    ctx.desc(|| format!("vectors of {lens:?} bits, {steps} operations"));
    let h = vs.iter().fold(0, |h, x| mix(h, x.1.hash()));
    ctx.distinct(h);
    let mut since = 0;
    for step in 0..steps {
        let which = ctx.rng.below(k);
        let how = ctx.rng.below(WAYS);
        let n = vs[which].1.n;
        if n == 0 || ctx.rng.chance(1, 60) {
            let fresh = ctx.len(max);
            ctx.op(|| format!("{which}: new({fresh})"));
            let (v, m) = (BitVec::new(fresh), Bits::zeros(fresh));
            audit(ctx, &v, &m, "fresh")?;
            vs[which] = (v, m);
            continue;
        }
        let other = ctx.rng.below(k);
        if other != which && ctx.rng.chance(1, 60) {
            ctx.op(|| format!("exchange the contents of {which} and {other}"));
            let [a, b] = vs.get_disjoint_mut([which, other]).unwrap();
            std::mem::swap(&mut *a.0, &mut *b.0);
            std::mem::swap(&mut a.1, &mut b.1);
            for (v, m) in [&*a, &*b] {
                audit(ctx, v, m, "exchanged")?;
            }
            ctx.ev("exchange", 1);
            continue;
        }
        let i = ctx.index(n);
        let (v, m) = &mut vs[which];
        match ctx.rng.below(6) {
            0 | 1 => {
                let b = ctx.rng.bool();
                ctx.op(|| format!("{which}: set({i}, {b}) via {how}"));
                set_via(v, how, i, b);
                m.set(i, b);
                ctx.ev("set", 1);
            }
            2 | 3 => {
                ctx.op(|| format!("{which}: flip({i}) via {how}"));
                flip_via(v, how, i);
                m.flip(i);
                ctx.ev("flip", 1);
            }
            _ => {
                ctx.op(|| format!("{which}: get({i}) via {how}"));
                let g = get_via(v, how, i);
                ensure!(g == m.get(i), "step {step}: get({i}) of {n} bits is {g} instead of {}", m.get(i));
                ctx.ev("get", 1);
            }
        }
        for j in [i.wrapping_sub(64), i.wrapping_sub(1), i, i + 1, i + 64] {
            if j < n {
                ensure!(v.get_bit(j) == m.get(j), "step {step}: after touching {i}, bit {j} of {n} is {} instead of {}", v.get_bit(j), m.get(j));
            }
        }
        since += 1;
        if n <= 200 || since >= steps / 8 {
            if n > 200 {
                since = 0;
            }
            let (v, m) = &vs[which];
            audit(ctx, v, m, &format!("step {step}"))?;
        }
    }
    for (v, m) in &vs {
        audit(ctx, v, m, "at the end")?;
    }
    Ok(())
}

fn huge_bits(ctx: &mut Ctx) -> R {
    let n = [(1usize << 33) + 123, (1 << 32) + 65, (1 << 34) + 64, (1 << 31) + 1][ctx.idx % 4];
    ctx.desc(|| format!("n={n}: sparse operations around powers of two"));
    ctx.distinct(n as u64);
    let mut v = BitVec::new(n);
    ensure!(v.len() == n, "length is {} instead of {n}", v.len());
    let mut m: std::collections::BTreeMap<usize, bool> = Default::default();
    let mut spots: Vec<usize> = Vec::new();
    for e in 0..40 {
        for d in [-65i64, -64, -1, 0, 1, 63, 64] {
            let i = (1i64 << e) + d;
            if i >= 0 && (i as usize) < n {
                spots.push(i as usize);
            }
        }
    }
    spots.push(n - 1);
    for _ in 0..2000 {
        spots.push(ctx.rng.below(n));
    }
    for &i in &spots {
        ensure!(!v.get_bit(i), "fresh bit {i} of {n} is set");
    }
    for round in 0..3 {
        for &i in &spots {
            match ctx.rng.below(3) {
                0 => {
                    v.set(i, true);
                    m.insert(i, true);
                }
                1 => {
                    v.flip_bit(i);
                    let e = m.entry(i).or_insert(false);
                    *e = !*e;
                }
                _ => {
                    v.set_bit(i, false);
                    m.insert(i, false);
                }
            }
        }
        ctx.ev("modification", spots.len() as u64);
        for &i in &spots {
            for j in [i, i ^ 1, i & 0xFFFF_FFFF, i & 0x7FFF_FFFF, i.wrapping_sub(1 << 32), i.wrapping_add(1 << 32)] {
                if j < n {
                    let e = m.get(&j).copied().unwrap_or(false);
                    ensure!(v.get(j) == e, "round {round}: bit {j} of {n} is {} instead of {e}", v.get(j));
                }
            }
        }
        ctx.ev("audited bit", 6 * spots.len() as u64);
    }
    for i in [n, n + 1, n + 63, n + 64, n + (1 << 32), usize::MAX] {
        ensure!(panics(|| v.get(i)), "get({i}) of {n} bits did not panic");
        ctx.rejected("get out of range");
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn oob_bitvec(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 2000, 200);
    let n = m.n;
    let v = make(&m);
    let mut v = adopted(ctx, v);
    ctx.desc(|| format!("n={n}: out of range accesses of a bit vector"));
    ctx.distinct(m.hash());
    for _ in 0..ctx.scale(16, 6) {
        let i = ctx.bad_index(n);
        let how = ctx.rng.below(WAYS);
        // the words are directly accessible up to their own length
        if how % WAYS != 4 || i >= n.div_ceil(64) * 64 {
            ensure!(panics(|| get_via(&v, how, i)), "get({i}) via {how} of {n} bits did not panic");
            ctx.rejected("get");
        }
        let b = ctx.rng.bool();
        ensure!(panics(|| set_via(&mut v, how, i, b)), "set({i}, {b}) via {how} of {n} bits did not panic");
        ctx.rejected("set");
        ensure!(panics(|| flip_via(&mut v, how, i)), "flip({i}) via {how} of {n} bits did not panic");
        ctx.rejected("flip");
        ensure!(v.raw().iter().map(|w| *w as u64).eq(m.words().iter().copied()), "rejected access to {i} changed the {n} bits");
    }
    audit(ctx, &v, &m, "after the rejected accesses")?;
    // the last bits are still fine
    for i in n.saturating_sub(3)..n {
        let how = ctx.rng.below(WAYS);
        no_panic(|| {
            let b = get_via(&v, how, i);
            set_via(&mut v, how, i, !b);
            flip_via(&mut v, how, i);
        })
        .map_err(|e| format!("access to {i} of {n} bits rejected: {e}"))?;
        ctx.ev("accepted", 3);
    }
    audit(ctx, &v, &m, "after the accepted accesses")
}

/// Hits a view over `lo..hi` of the bits `m` with indices outside of it.
fn hit_view<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, len: usize) -> R {
    ensure!(s.len() == len, "view has length {} instead of {len}", s.len());
    for _ in 0..ctx.scale(10, 4) {
        let i = ctx.bad_index(len);
        let b = ctx.rng.bool();
        let how = ctx.rng.bool();
        ensure!(panics(|| if how { s.get_bit(i) } else { s.get(i) }), "get({i}) of a view of {len} bits did not panic");
        ensure!(panics(|| if how { s.set_bit(i, b) } else { s.set(i, b) }), "set({i}, {b}) of a view of {len} bits did not panic");
        ensure!(panics(|| if how { s.flip_bit(i) } else { s.flip(i) }), "flip({i}) of a view of {len} bits did not panic");
        ctx.rejected("get");
        ctx.rejected("set");
        ctx.rejected("flip");
    }
    for i in [0, len.wrapping_sub(1)] {
        if i < len {
            no_panic(|| {
                let b = s.get_bit(i);
                s.set_bit(i, !b);
                s.flip_bit(i);
            })
            .map_err(|e| format!("access to {i} of a view of {len} bits rejected: {e}"))?;
            ctx.ev("accepted", 3);
        }
    }
    Ok(())
}

fn oob_views(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 1500, 200);
    let n = m.n;
    let mut v = make(&m);
    let r = ctx.good_range(n);
    let (a, b) = r.resolve(n).unwrap();
    ctx.desc(|| format!("n={n} view {a}..{b}: out of range accesses"));
    ctx.distinct(mix(m.hash(), mix(a as u64, b as u64)));
    {
        let mut s = v.slice_mut(r);
        hit_view(ctx, &mut s, b - a)?;
        let r2 = ctx.good_range(b - a);
        let (c, d) = r2.resolve(b - a).unwrap();
        let mut t = s.slice_mut(r2);
        hit_view(ctx, &mut t, d - c)?;
        if b - a > 0 {
            let k = ctx.rng.below(b - a);
            let (mut l, mut r) = s.split_at_mut(k);
            hit_view(ctx, &mut l, k)?;
            hit_view(ctx, &mut r, b - a - k)?;
        }
    }
    let s = v.slice(r);
    for _ in 0..4 {
        let i = ctx.bad_index(b - a);
        ensure!(panics(|| s.get_bit(i)), "get({i}) of a read-only view of {} bits did not panic", b - a);
        ctx.rejected("get");
    }
    audit(ctx, &v, &m, "after the rejected accesses")
}

trait Prim: BitGet + BitModify + Copy {
    const BITS: usize;
    const NAME: &'static str;
    fn of(x: u64) -> Self;
    fn val(self) -> u64;
}
macro_rules! prim {
    ($($t:ty),+) => {$(
        impl Prim for $t {
            const BITS: usize = <$t>::BITS as usize;
            const NAME: &'static str = stringify!($t);
            fn of(x: u64) -> Self { x as $t }
            fn val(self) -> u64 { self as u64 }
        }
    )+};
}
prim!(u8, u16, u32, u64, usize);

fn oob_prim<T: Prim>(ctx: &mut Ctx) -> R {
    let x = ctx.rng.u64();
    let mut v = T::of(x);
    ctx.distinct(mix(v.val(), T::BITS as u64));
    for _ in 0..ctx.scale(12, 4) {
        let i = ctx.bad_index(T::BITS);
        let b = ctx.rng.bool();
        ensure!(panics(|| v.get_bit(i)), "{}: get_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| v.set_bit(i, b)), "{}: set_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| v.flip_bit(i)), "{}: flip_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| BitGet::get_bit(&&v, i)), "&{}: get_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| BitModify::set_bit(&mut &mut v, i, b)), "&mut {}: set_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| BitModify::flip_bit(&mut &mut v, i)), "&mut {}: flip_bit({i}) did not panic", T::NAME);
        let mut bx = Box::new(v);
        ensure!(panics(|| BitGet::get_bit(&bx, i)), "Box<{}>: get_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| BitModify::set_bit(&mut bx, i, b)), "Box<{}>: set_bit({i}) did not panic", T::NAME);
        ensure!(panics(|| BitModify::flip_bit(&mut bx, i)), "Box<{}>: flip_bit({i}) did not panic", T::NAME);
        let rc = Rc::new(v);
        ensure!(panics(|| BitGet::get_bit(&rc, i)), "Rc<{}>: get_bit({i}) did not panic", T::NAME);
        ensure!(v.val() == T::of(x).val() && bx.val() == v.val(), "{}: rejected access to {i} changed {x:#x} to {:#x}", T::NAME, v.val());
        ctx.stats.rejections += 10;
        ctx.ev("rejected access", 10);
    }
    let i = T::BITS - 1;
    no_panic(|| {
        v.get_bit(i);
        v.flip_bit(i);
        v.set_bit(i, true);
    })
    .map_err(|e| format!("{}: access to {i} rejected: {e}", T::NAME))
}

fn oob_prims(ctx: &mut Ctx) -> R {
    ctx.desc(|| "out of range accesses of every primitive".into());
    oob_prim::<u8>(ctx)?;
    oob_prim::<u16>(ctx)?;
    oob_prim::<u32>(ctx)?;
    oob_prim::<u64>(ctx)?;
    oob_prim::<usize>(ctx)
}

fn random_words(ctx: &mut Ctx, max: usize) -> Vec<usize> {
    let n = ctx.rng.incl(0, max);
    let kind = ctx.rng.below(Bits::KINDS);
    let b = Bits::pattern(kind, n * 64, &mut ctx.rng);
    b.words().iter().map(|w| *w as usize).collect()
}

fn oob_words(ctx: &mut Ctx) -> R {
    let orig = random_words(ctx, 12);
    let mut w = orig.clone();
    let n = w.len() * 64;
    ctx.desc(|| format!("{} words: out of range accesses of a word slice", orig.len()));
    ctx.distinct(orig.iter().fold(1, |h, x| mix(h, *x as u64)));
    for _ in 0..ctx.scale(10, 4) {
        let i = ctx.bad_index(n);
        let b = ctx.rng.bool();
        let s: &mut [usize] = &mut w;
        ensure!(panics(|| s.get_bit(i)), "[usize; {n}/64]: get_bit({i}) did not panic");
        ensure!(panics(|| s.set_bit(i, b)), "[usize; {n}/64]: set_bit({i}) did not panic");
        ensure!(panics(|| s.flip_bit(i)), "[usize; {n}/64]: flip_bit({i}) did not panic");
        let mut bx = w.clone().into_boxed_slice();
        ensure!(panics(|| BitGet::get_bit(&bx, i)), "Box<[usize]>: get_bit({i}) did not panic");
        ensure!(panics(|| BitModify::set_bit(&mut bx, i, b)), "Box<[usize]>: set_bit({i}) did not panic");
        ensure!(panics(|| BitModify::flip_bit(&mut bx, i)), "Box<[usize]>: flip_bit({i}) did not panic");
        ensure!(w == orig && *bx == *orig, "rejected access to {i} changed the words");
        ctx.stats.rejections += 6;
        ctx.ev("rejected access", 6);
    }
    if n > 0 {
        let s: &mut [usize] = &mut w;
        no_panic(|| {
            s.get_bit(n - 1);
            s.set_bit(n - 1, true);
            s.flip_bit(n - 1)
        })
        .map_err(|e| format!("access to {} of {n} bits rejected: {e}", n - 1))?;
    }
    Ok(())
}

/// Views whose bounds exceed their backing: whatever lies outside must be rejected.
fn oob_exceeding(ctx: &mut Ctx) -> R {
    fn go<B: BitGet + BitModify>(ctx: &mut Ctx, b: B, bits: usize, read: impl Fn(&B) -> Vec<u64>) -> R {
        let start = match ctx.rng.below(3) {
            0 => 0,
            1 => ctx.any_index(bits) >> 1,
            _ => ctx.rng.incl(0, bits),
        };
        let end = match ctx.rng.below(5) {
            0 => start,
            1 => usize::MAX,
            2 => start.max(bits),
            _ => start + ctx.rng.below(300),
        };
        let before = read(&b);
        let mut s = BitSlice::new(b, start, end);
        ensure!(s.len() == end - start, "view {start}..{end} has length {}", s.len());
        for _ in 0..8 {
            let i = ctx.any_index(s.len());
            let v = ctx.rng.bool();
            let inside = i < s.len() && start + i < bits;
            let g = outcome(|| s.get_bit(i));
            ensure!(g.is_some() == inside, "view {start}..{end} of {bits} bits: get_bit({i}) {}", if inside { "panicked" } else { "did not panic" });
            if inside {
                // leave the content as it was
                let g = g.unwrap();
                ensure!(outcome(|| s.flip_bit(i)).is_some() && outcome(|| s.set_bit(i, g)).is_some(), "view {start}..{end} of {bits} bits: access to {i} panicked");
                ctx.ev("accepted", 3);
            } else {
                ensure!(outcome(|| s.set_bit(i, v)).is_none(), "view {start}..{end} of {bits} bits: set_bit({i}) did not panic");
                ensure!(outcome(|| s.flip_bit(i)).is_none(), "view {start}..{end} of {bits} bits: flip_bit({i}) did not panic");
                ctx.stats.rejections += 3;
                ctx.ev("rejected access", 3);
            }
        }
        let after = read(s.backing());
        ensure!(before == after, "view {start}..{end} of {bits} bits: content changed from {before:x?} to {after:x?}");
        Ok(())
    }
    ctx.desc(|| "views whose bounds exceed the backing".into());
    let x = ctx.rng.u64();
    ctx.distinct(x);
    match ctx.rng.below(6) {
        0 => go(ctx, x as u8, 8, |b| vec![*b as u64]),
        1 => go(ctx, x as u32, 32, |b| vec![*b as u64]),
        2 => go(ctx, x, 64, |b| vec![*b]),
        3 => go(ctx, Box::new(x as u16), 16, |b| vec![**b as u64]),
        4 => {
            let w = random_words(ctx, 4);
            go(ctx, w.clone().into_boxed_slice(), w.len() * 64, |b| b.iter().map(|w| *w as u64).collect())
        }
        _ => {
            let m = random_bits(ctx, 300);
            let mut v = make(&m);
            let n = m.n;
            let r = ctx.good_range(n);
            let (a, b) = r.resolve(n).unwrap();
            let res = go(ctx, v.slice_mut(r), b - a, |s| s.iter().map(|x| x as u64).collect());
            res?;
            audit(ctx, &v, &m, "after accesses through an exceeding view")
        }
    }
}

/// Positions around the powers of two below `n`, the last ones, and random ones.
fn spots(ctx: &mut Ctx, n: usize, random: usize) -> Vec<usize> {
    let mut s = vec![0, n - 1];
    for e in 5..40 {
        for d in [-65i64, -64, -1, 0, 1, 63, 64] {
            let i = (1i64 << e) + d;
            if i >= 0 && (i as usize) < n {
                s.push(i as usize);
            }
        }
    }
    for _ in 0..random {
        s.push(ctx.rng.below(n));
    }
    s
}

fn oob_huge(ctx: &mut Ctx) -> R {
    let n = [(1usize << 32) + 70, (1 << 33) + 1][ctx.idx % 2];
    let mut v = BitVec::new(n);
    ctx.desc(|| format!("n={n}: out of range accesses beyond 32 bit positions"));
    ctx.distinct(n as u64);
    let bad = [n, n + 1, n + 57, n + 58, n + 63, n + 64, 2 * n, 1 << 34, (1 << 40) + 3, n + (1 << 32), usize::MAX - n, usize::MAX];
    let a = (1usize << 32) - 100;
    for (what, i) in bad.iter().map(|i| ("vector", *i)).chain(bad.iter().map(|i| ("view", *i))).chain([("view", n - a), ("view", n - a + 1), ("view", n - a + 64)]) {
        if what == "vector" {
            for how in 0..WAYS {
                // the words are directly accessible up to their own length
                if how != 4 || i >= n.div_ceil(64) * 64 {
                    ensure!(panics(|| get_via(&v, how, i)), "get({i}) via {how} of {n} bits did not panic");
                }
                ensure!(panics(|| set_via(&mut v, how, i, true)), "set({i}) via {how} of {n} bits did not panic");
                ensure!(panics(|| flip_via(&mut v, how, i)), "flip({i}) via {how} of {n} bits did not panic");
                ctx.stats.rejections += 3;
            }
        } else {
            let mut s = v.slice_mut(a..);
            ensure!(panics(|| s.get(i)), "get({i}) of a view {a}..{n} did not panic");
            ensure!(panics(|| s.set(i, true)), "set({i}) of a view {a}..{n} did not panic");
            ensure!(panics(|| s.flip_bit(i)), "flip_bit({i}) of a view {a}..{n} did not panic");
            ctx.stats.rejections += 3;
        }
        ctx.ev("rejected access", 3);
    }
    for i in [n - 1, 1 << 32, (1 << 32) - 1, a] {
        let g = outcome(|| {
            let b = v.get(i);
            v.flip(i);
            v.set_bit(i, false);
            b
        });
        ensure!(g == Some(false), "access to {i} of {n} bits gives {g:?}");
        ctx.ev("accepted", 3);
    }
    // nothing was written anywhere
    ensure!(v.raw().iter().all(|w| *w == 0), "rejected accesses changed the {n} bits");
    Ok(())
}

// ---------------------------------------------------------------- C04

fn check_view<B: BitGet>(ctx: &mut Ctx, s: &BitSlice<B>, m: &Bits, a: usize, b: usize, what: &dyn Fn() -> String) -> R {
    ensure!(s.len() == b - a, "{}: length {} instead of {}", what(), s.len(), b - a);
    ensure!(s.is_empty() == (a == b), "{}: is_empty {}", what(), s.is_empty());
    for i in 0..b - a {
        ensure!(s.get_bit(i) == m.get(a + i), "{}: bit {i} is {} instead of {}", what(), s.get_bit(i), m.get(a + i));
    }
    ctx.ev("viewed bit", (b - a) as u64);
    Ok(())
}

fn all_ranges(ctx: &mut Ctx) -> R {
    use std::ops::Bound::*;
    // every combination of bounds near a small vector
    let n = if ctx.small { [0, 1, 2, 3, 5, 7, 8, 9][ctx.idx % 8] } else { ctx.idx };
    let off = ctx.rng.below(70);
    let m = Bits::pattern(4, n + off + 70, &mut ctx.rng);
    let mut v = make(&m);
    ctx.desc(|| format!("every range over {n} bits at offset {off}"));
    ctx.distinct(n as u64);
    let ends: Vec<usize> = if n <= 24 {
        (0..n + 3).chain([usize::MAX - 1, usize::MAX]).collect()
    } else {
        // every third endpoint, plus both ends
        (0..n + 3).filter(|i| i % 3 == n % 3 || *i < 3 || *i + 3 > n).chain([usize::MAX - 1, usize::MAX]).collect()
    };
    let mut bounds = vec![Unbounded];
    for e in ends {
        bounds.push(Included(e));
        bounds.push(Excluded(e));
    }
    for &s in &bounds {
        for &e in &bounds {
            let r = Rg { s, e };
            let want = r.resolve(n);
            let mut base = v.slice_mut(off..off + n);
            ctx.ev("range", 2);
            match want {
                Some((a, b)) => {
                    let x = no_panic(|| base.slice(r)).map_err(|p| format!("slice({r:?}) of {n} bits panicked: {p}"))?;
                    check_view(ctx, &x, &m, off + a, off + b, &|| format!("slice({r:?}) of {n} bits"))?;
                    let x = no_panic(|| base.slice_mut(r)).map_err(|p| format!("slice_mut({r:?}) of {n} bits panicked: {p}"))?;
                    check_view(ctx, &x, &m, off + a, off + b, &|| format!("slice_mut({r:?}) of {n} bits"))?;
                }
                None => {
                    ensure!(panics(|| base.slice(r).len()), "slice({r:?}) of {n} bits did not panic");
                    ensure!(panics(|| base.slice_mut(r).len()), "slice_mut({r:?}) of {n} bits did not panic");
                    ctx.stats.rejections += 2;
                }
            }
        }
    }
    // the standard range types
    let base = v.slice(off..off + n);
    for a in 0..=n {
        check_view(ctx, &base.slice(a..), &m, off + a, off + n, &|| format!("slice({a}..) of {n}"))?;
        check_view(ctx, &base.slice(..a), &m, off, off + a, &|| format!("slice(..{a}) of {n}"))?;
        for b in a..=n {
            check_view(ctx, &base.slice(a..b), &m, off + a, off + b, &|| format!("slice({a}..{b}) of {n}"))?;
            if b > a {
                check_view(ctx, &base.slice(a..=b - 1), &m, off + a, off + b, &|| format!("slice({a}..={}) of {n}", b - 1))?;
                check_view(ctx, &base.slice(..=b - 1), &m, off, off + b, &|| format!("slice(..={}) of {n}", b - 1))?;
            }
        }
    }
    check_view(ctx, &base.slice(..), &m, off, off + n, &|| format!("slice(..) of {n}"))?;
    audit(ctx, &v, &m, "after slicing")
}

/// Modifies the bits of a view over `lo..` of `m`, and keeps `m` in step.
fn write_view<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, m: &mut Bits, lo: usize, len: usize, steps: usize) -> R {
    ensure!(s.len() == len, "view has length {} instead of {len}", s.len());
    for _ in 0..steps {
        if len == 0 {
            break;
        }
        let i = ctx.index(len);
        match ctx.rng.below(5) {
            0 | 1 => {
                let b = ctx.rng.bool();
                if ctx.rng.bool() {
                    s.set_bit(i, b)
                } else {
                    s.set(i, b)
                }
                m.set(lo + i, b);
                ctx.ev("set through view", 1);
            }
            2 | 3 => {
                if ctx.rng.bool() {
                    s.flip_bit(i)
                } else {
                    s.flip(i)
                }
                m.flip(lo + i);
                ctx.ev("flip through view", 1);
            }
            _ => {
                ensure!(s.get(i) == m.get(lo + i), "bit {i} of the view at {lo} is {}", s.get(i));
                ctx.ev("get through view", 1);
            }
        }
        ensure!(s.get_bit(i) == m.get(lo + i), "bit {i} of the view at {lo} reads {} after the access", s.get_bit(i));
    }
    for i in 0..len.min(300) {
        ensure!(s.get_bit(i) == m.get(lo + i), "bit {i} of the view at {lo} is {} instead of {}", s.get_bit(i), m.get(lo + i));
    }
    Ok(())
}

macro_rules! deeper {
    ($name:ident, $next:ident) => {
        fn $name<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, m: &mut Bits, lo: usize, len: usize) -> R {
            write_view(ctx, s, m, lo, len, 4)?;
            // reading views of this view
            let r = ctx.good_range(len);
            let (a, b) = r.resolve(len).unwrap();
            check_view(ctx, &s.slice(r), m, lo + a, lo + b, &|| format!("slice({r:?}) of a nested view at {lo}"))?;
            let bad = ctx.bad_range(len);
            ensure!(panics(|| s.slice(bad).len()), "slice({bad:?}) of a view of {len} bits did not panic");
            ensure!(panics(|| s.slice_mut(bad).len()), "slice_mut({bad:?}) of a view of {len} bits did not panic");
            ctx.stats.rejections += 2;
            ctx.ev("range", 4);
            let r = ctx.good_range(len);
            let (a, b) = r.resolve(len).unwrap();
            if ctx.rng.chance(1, 4) {
                let mut t = BitSlice::new(&mut *s, a, b);
                $next(ctx, &mut t, m, lo + a, b - a)?;
            } else {
                let mut t = s.slice_mut(r);
                $next(ctx, &mut t, m, lo + a, b - a)?;
            }
            write_view(ctx, s, m, lo, len, 2)
        }
    };
}
fn leaf<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, m: &mut Bits, lo: usize, len: usize) -> R {
    write_view(ctx, s, m, lo, len, 8)
}
deeper!(deep3, leaf);
deeper!(deep2, deep3);
deeper!(deep1, deep2);

fn nested(ctx: &mut Ctx) -> R {
    let mut m = random_bits_up_to(ctx, 1200, 150);
    let n = m.n;
    let mut v = make(&m);
    ctx.desc(|| format!("n={n}: nested views, up to four levels"));
    ctx.distinct(m.hash());
    deep1(ctx, &mut v, &mut m, 0, n)?;
    audit(ctx, &v, &m, "after writing through nested views")
}

fn explicit_views(ctx: &mut Ctx) -> R {
    // views made with BitSlice::new over other backings
    let w0 = random_words(ctx, 10);
    let n = w0.len() * 64;
    let mut m = Bits { w: w0.iter().map(|w| *w as u64).chain([0]).collect(), n };
    let mut w = w0.clone();
    let r = ctx.good_range(n);
    let (a, b) = r.resolve(n).unwrap();
    ctx.desc(|| format!("explicit view {a}..{b} over {} words", w0.len()));
    ctx.distinct(mix(m.hash(), mix(a as u64, b as u64)));
    {
        let mut s = BitSlice::new(&mut w[..], a, b);
        write_view(ctx, &mut s, &mut m, a, b - a, 16)?;
        let r2 = ctx.good_range(b - a);
        let (c, d) = r2.resolve(b - a).unwrap();
        let mut t = s.slice_mut(r2);
        write_view(ctx, &mut t, &mut m, a + c, d - c, 8)?;
    }
    ensure!(w.iter().map(|x| *x as u64).eq(m.words().iter().copied()), "words after writing through views {a}..{b}: {w:x?}, expected {:x?}", m.words());
    // inverted bounds are rejected
    if n > 0 {
        let x = ctx.rng.incl(1, n);
        let y = ctx.rng.below(x);
        ensure!(panics(|| BitSlice::new(&w[..], x, y).len()), "a view from {x} to {y} was accepted");
        ctx.rejected("inverted view");
    }
    // primitives
    let x = ctx.rng.u64();
    let mut y = x;
    let (a, b) = (ctx.rng.incl(0, 64), ctx.rng.incl(0, 64));
    let (a, b) = (a.min(b), a.max(b));
    let mut m = Bits { w: vec![x, 0], n: 64 };
    write_view(ctx, &mut BitSlice::new(&mut y, a, b), &mut m, a, b - a, 10)?;
    ensure!(y == m.w[0], "u64 after writing through the view {a}..{b}: {y:#x} instead of {:#x}", m.w[0]);
    Ok(())
}

fn huge_views(ctx: &mut Ctx) -> R {
    let n = [(1usize << 33) + 777, (1 << 32) + 3][ctx.idx % 2];
    let mut v = BitVec::new(n);
    ctx.desc(|| format!("n={n}: views beyond 32 bit positions"));
    ctx.distinct(n as u64);
    for _ in 0..400 {
        let (a, b) = (ctx.rng.incl(0, n), ctx.rng.incl(0, n));
        let (a, b) = (a.min(b), a.max(b));
        if a == b {
            continue;
        }
        let i = ctx.index(b - a);
        let mut s = v.slice_mut(a..b);
        ensure!(s.len() == b - a, "length of {a}..{b} is {}", s.len());
        let before = s.get(i);
        s.flip(i);
        ensure!(s.slice(i..).get(0) != before, "flip({i}) in {a}..{b} had no effect");
        ensure!(v.get(a + i) != before, "flip({i}) in {a}..{b} did not reach bit {}", a + i);
        ensure!(v.slice(..=a + i).get(a + i) != before, "view ..={} differs", a + i);
        if a + i > 0 {
            let k = a + i;
            let (l, r) = v.split_at(k);
            ensure!(l.len() == k && r.len() == n - k && r.get(0) != before, "split at {k} of {n}");
        }
        v.set(a + i, false);
        ctx.ev("view operation", 6);
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn check_split<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, m: &mut Bits, lo: usize, len: usize, k: usize) -> R {
    {
        let (l, r) = no_panic(|| s.split_at(k)).map_err(|p| format!("split_at({k}) of {len} bits panicked: {p}"))?;
        check_view(ctx, &l, m, lo, lo + k, &|| format!("left part of split_at({k}) of {len} bits at {lo}"))?;
        check_view(ctx, &r, m, lo + k, lo + len, &|| format!("right part of split_at({k}) of {len} bits at {lo}"))?;
    }
    {
        let (mut l, mut r) = no_panic(|| s.split_at_mut(k)).map_err(|p| format!("split_at_mut({k}) of {len} bits panicked: {p}"))?;
        check_view(ctx, &l, m, lo, lo + k, &|| format!("left part of split_at_mut({k}) of {len} bits at {lo}"))?;
        check_view(ctx, &r, m, lo + k, lo + len, &|| format!("right part of split_at_mut({k}) of {len} bits at {lo}"))?;
        // the bits next to the split, in both orders
        for round in 0..2 {
            if k > 0 {
                l.flip(k - 1);
                m.flip(lo + k - 1);
            }
            r.flip(0);
            m.flip(lo + k);
            if k > 0 {
                let b = ctx.rng.bool();
                l.set(0, b);
                m.set(lo, b);
                ensure!(l.get(k - 1) == m.get(lo + k - 1), "round {round}: last bit of the left part of split {k} of {len}");
            }
            let b = ctx.rng.bool();
            r.set(len - k - 1, b);
            m.set(lo + len - 1, b);
            ensure!(r.get(0) == m.get(lo + k), "round {round}: first bit of the right part of split {k} of {len}");
        }
        ctx.ev("interleaved write", 8);
        check_view(ctx, &l, m, lo, lo + k, &|| format!("left part of split {k} of {len} bits after writing"))?;
        check_view(ctx, &r, m, lo + k, lo + len, &|| format!("right part of split {k} of {len} bits after writing"))?;
    }
    Ok(())
}

fn all_splits(ctx: &mut Ctx) -> R {
    let n = if ctx.small { ctx.idx * 3 } else { ctx.idx };
    let off = ctx.rng.below(70);
    let pad = ctx.rng.below(70);
    let mut m = Bits::pattern(4, off + n + pad, &mut ctx.rng);
    let mut v = make(&m);
    ctx.desc(|| format!("every split of {n} bits at offset {off}"));
    ctx.distinct(mix(m.hash(), n as u64));
    for k in 0..n {
        {
            let mut s = v.slice_mut(off..off + n);
            check_split(ctx, &mut s, &mut m, off, n, k)?;
        }
        if k % 8 == 0 {
            audit(ctx, &v, &m, &format!("after splitting {n} bits at {off} at {k}"))?;
        }
    }
    audit(ctx, &v, &m, "after all splits")?;
    // the whole vector
    let total = m.n;
    if total > 0 {
        let k = ctx.rng.below(total);
        check_split(ctx, &mut v, &mut m, 0, total, k)?;
        audit(ctx, &v, &m, &format!("after splitting {total} bits at {k}"))?;
    }
    let mut s = v.slice_mut(off..off + n);
    for _ in 0..4 {
        let k = ctx.bad_index(n);
        ensure!(panics(|| s.split_at(k).0.len()), "split_at({k}) of {n} bits did not panic");
        ensure!(panics(|| s.split_at_mut(k).0.len()), "split_at_mut({k}) of {n} bits did not panic");
        ctx.stats.rejections += 2;
        ctx.ev("split out of range", 2);
    }
    audit(ctx, &v, &m, "after the rejected splits")
}

fn poke<B: BitGet + BitModify>(ctx: &mut Ctx, s: &mut BitSlice<B>, m: &mut Bits, lo: usize) -> R {
    let n = s.len();
    if n == 0 {
        return Ok(());
    }
    let i = ctx.index(n);
    match ctx.rng.below(4) {
        0 => {
            let b = ctx.rng.bool();
            s.set(i, b);
            m.set(lo + i, b);
        }
        1 => {
            s.flip_bit(i);
            m.flip(lo + i);
        }
        2 => {
            let j = ctx.rng.incl(i, n);
            let mut t = s.slice_mut(i..j);
            if j > i {
                t.flip(j - i - 1);
                m.flip(lo + j - 1);
            }
        }
        _ => {
            let bad = ctx.bad_index(n);
            ensure!(panics(|| s.set(bad, true)) && panics(|| s.flip(bad)) && panics(|| s.get(bad)), "access to {bad} of a part of {n} bits did not panic");
            ctx.stats.rejections += 3;
        }
    }
    ctx.ev("interleaved access", 1);
    ensure!(s.get_bit(i) == m.get(lo + i), "bit {i} of the part at {lo} is {} instead of {}", s.get_bit(i), m.get(lo + i));
    Ok(())
}

fn interleaved(ctx: &mut Ctx) -> R {
    let mut m = random_bits_up_to(ctx, 900, 200);
    if m.n < 4 {
        m = Bits::pattern(4, 4 + ctx.rng.below(80), &mut ctx.rng);
    }
    let n = m.n;
    let mut v = make(&m);
    let a = ctx.rng.below(n - 2);
    let b = ctx.rng.incl(a + 3, n);
    let len = b - a;
    let k = ctx.index(len).clamp(1, len - 1);
    ctx.desc(|| format!("n={n} view {a}..{b} split at {k}, each part split again, interleaved accesses"));
    ctx.distinct(mix(m.hash(), mix(a as u64, mix(b as u64, k as u64))));
    {
        let mut s = v.slice_mut(a..b);
        let (mut l, mut r) = s.split_at_mut(k);
        for _ in 0..ctx.scale(12, 6) {
            if ctx.rng.bool() {
                poke(ctx, &mut l, &mut m, a)?;
            } else {
                poke(ctx, &mut r, &mut m, a + k)?;
            }
        }
        let kl = ctx.rng.below(k);
        let kr = ctx.rng.below(len - k);
        let (mut ll, mut lr) = l.split_at_mut(kl);
        let (mut rl, mut rr) = r.split_at_mut(kr);
        for _ in 0..ctx.scale(24, 10) {
            match ctx.rng.below(4) {
                0 => poke(ctx, &mut ll, &mut m, a)?,
                1 => poke(ctx, &mut lr, &mut m, a + kl)?,
                2 => poke(ctx, &mut rl, &mut m, a + k)?,
                _ => poke(ctx, &mut rr, &mut m, a + k + kr)?,
            }
        }
        check_view(ctx, &ll, &m, a, a + kl, &|| format!("part {a}..{}", a + kl))?;
        check_view(ctx, &lr, &m, a + kl, a + k, &|| format!("part {}..{}", a + kl, a + k))?;
        check_view(ctx, &rl, &m, a + k, a + k + kr, &|| format!("part {}..{}", a + k, a + k + kr))?;
        check_view(ctx, &rr, &m, a + k + kr, b, &|| format!("part {}..{b}", a + k + kr))?;
        // iterators of one part while the other is written
        let it = lr.iter();
        if rl.len() > 0 {
            rl.flip(0);
            m.flip(a + k);
        }
        let got: Vec<bool> = it.collect();
        let want: Vec<bool> = (a + kl..a + k).map(|i| m.get(i)).collect();
        ensure!(got == want, "iterating a part while the other one is written");
    }
    audit(ctx, &v, &m, "after interleaved accesses")?;
    // splits of primitives
    let x = ctx.rng.u64();
    let mut y = x;
    let mut m = Bits { w: vec![x, 0], n: 64 };
    let k = ctx.rng.below(64);
    {
        let mut s = BitSlice::new(&mut y, 0, 64);
        let (mut l, mut r) = s.split_at_mut(k);
        for _ in 0..6 {
            poke(ctx, &mut l, &mut m, 0)?;
            poke(ctx, &mut r, &mut m, k)?;
        }
    }
    ensure!(y == m.w[0], "u64 split at {k}: {y:#x} instead of {:#x}", m.w[0]);
    Ok(())
}

fn huge_splits(ctx: &mut Ctx) -> R {
    let n = [(1usize << 33) + 99, (1 << 32) + 5][ctx.idx % 2];
    let mut v = BitVec::new(n);
    ctx.desc(|| format!("n={n}: splits beyond 32 bit positions"));
    ctx.distinct(n as u64);
    for k in spots(ctx, n, 300) {
        if k == 0 {
            continue;
        }
        {
            let (mut l, mut r) = v.split_at_mut(k);
            ensure!(l.len() == k && r.len() == n - k, "split_at_mut({k}) of {n} bits gives {} and {} bits", l.len(), r.len());
            l.flip(k - 1);
            r.flip(0);
            r.flip(n - k - 1);
            ensure!(l.get(k - 1), "split_at_mut({k}) of {n} bits: the last bit of the left part was not written");
            ensure!(panics(|| l.flip(k)) && panics(|| r.get(n - k)), "split_at_mut({k}) of {n} bits: a part reaches too far");
            // the last bit is flipped twice if it is also the first one
            ensure!(r.get(0) == (n - k > 1), "split_at_mut({k}) of {n} bits: the first bit of the right part");
        }
        let (l, r) = v.split_at(k);
        ensure!(l.len() == k && r.len() == n - k, "split_at({k}) of {n} bits gives {} and {} bits", l.len(), r.len());
        ensure!(l.get(k - 1) && r.get(0) == (n - k > 1), "split_at({k}) of {n} bits shows other bits");
        ensure!(v.get(k - 1) && v.get(k) == (n - k > 1) && v.get(n - 1) == (n - k > 1), "writes to the parts of a split at {k} of {n} bits");
        for i in [k - 1, k, n - 1] {
            v.set(i, false);
        }
        ctx.ev("split", 2);
    }
    for k in [n, n + 1, n + (1 << 32), usize::MAX] {
        ensure!(panics(|| v.split_at(k).0.len()) && panics(|| v.split_at_mut(k).0.len()), "a split at {k} of {n} bits did not panic");
        ctx.rejected("split out of range");
    }
    ensure!(v.raw().iter().all(|w| *w == 0), "writes to the parts changed other bits of {n}");
    Ok(())
}

// ---------------------------------------------------------------- C06 / C13

/// Follows an exact size iterator and checks that it yields exactly `want`.
pub fn drive<T: PartialEq + Copy + std::fmt::Debug, I: ExactSizeIterator<Item = T>>(ctx: &mut Ctx, mut it: I, want: &[T], what: &str) -> R {
    let n = want.len();
    let mut at = 0;
    let check_len = |it: &I, at: usize| -> R {
        ensure!(it.len() == n - at, "{what}: len() is {} after {at} of {n} items", it.len());
        ensure!(it.size_hint() == (n - at, Some(n - at)), "{what}: size_hint() is {:?} after {at} of {n} items", it.size_hint());
        Ok(())
    };
    check_len(&it, 0)?;
    let jumpy = ctx.rng.chance(1, 2);
    // some iterators are used up by a method half-way
    let stop = if ctx.rng.chance(1, 4) { ctx.rng.incl(0, n) } else { usize::MAX };
    while at < n {
        if at >= stop {
            let rest = &want[at..];
            ctx.ev("used up half-way", 1);
            match ctx.rng.below(6) {
                0 => ensure!(it.count() == rest.len(), "{what}: count() after {at} of {n} items"),
                1 => ensure!(it.last() == rest.last().copied(), "{what}: last() after {at} of {n} items"),
                2 => {
                    let got: Vec<T> = it.collect();
                    ensure!(got == rest, "{what}: collect() after {at} of {n} items");
                }
                3 => {
                    let got = it.fold(Vec::new(), |mut v, x| {
                        v.push(x);
                        v
                    });
                    ensure!(got == rest, "{what}: fold() after {at} of {n} items");
                }
                4 => {
                    let k = ctx.rng.below(70);
                    ensure!(it.skip(k).eq(rest.iter().copied().skip(k)), "{what}: skip({k}) after {at} of {n} items");
                }
                _ => {
                    let k = ctx.rng.incl(1, 70);
                    ensure!(it.step_by(k).eq(rest.iter().copied().step_by(k)), "{what}: step_by({k}) after {at} of {n} items");
                }
            }
            return Ok(());
        }
        if jumpy && ctx.rng.chance(1, 5) {
            let k = match ctx.rng.below(24) {
                0 => usize::MAX - ctx.rng.below(3),
                1 => usize::MAX - at.saturating_sub(ctx.rng.below(4)),
                2 => (1usize << ctx.rng.incl(31, 63)).wrapping_sub(at).wrapping_add(ctx.rng.below(3)),
                3 => n - at - 1 + ctx.rng.below(3),
                _ => ctx.rng.below(12) * ctx.rng.incl(1, 12),
            };
            let got = it.nth(k);
            let exp = at.checked_add(k).and_then(|i| want.get(i).copied());
            ensure!(got == exp, "{what}: nth({k}) after {at} of {n} items is {got:?} instead of {exp:?}");
            at = at.saturating_add(k).saturating_add(1).min(n);
            ctx.ev("nth", 1);
        } else if jumpy && ctx.rng.chance(1, 8) {
            let k = ctx.rng.below(40);
            let got: Vec<T> = it.by_ref().take(k).collect();
            let exp = &want[at..(at + k).min(n)];
            ensure!(got == exp, "{what}: take({k}) after {at} of {n} items is {got:?} instead of {exp:?}");
            at = (at + k).min(n);
            ctx.ev("take", 1);
        } else if jumpy && ctx.rng.chance(1, 8) {
            at = search(ctx, &mut it, want, at, what)?;
        } else {
            let got = it.next();
            ensure!(got == Some(want[at]), "{what}: item {at} of {n} is {got:?} instead of {:?}", want[at]);
            at += 1;
        }
        if at % 16 < 2 || n < 300 {
            check_len(&it, at)?;
        }
    }
    ctx.ev("item", n as u64);
    check_len(&it, n)?;
    for _ in 0..3 {
        let got = it.next();
        ensure!(got.is_none(), "{what}: yields {got:?} after its {n} items");
        check_len(&it, n)?;
    }
    for k in [3, usize::MAX, 0, usize::MAX - n] {
        ensure!(it.nth(k).is_none(), "{what}: nth({k}) after the end");
        check_len(&it, n)?;
    }
    Ok(())
}

/// Methods that stop at the first matching item: what they answer, which items they look at, and where
/// the iterator is afterwards.
fn search<T: PartialEq + Copy + std::fmt::Debug, I: ExactSizeIterator<Item = T>>(ctx: &mut Ctx, it: &mut I, want: &[T], at: usize, what: &str) -> Result<usize, String> {
    let rest = &want[at..];
    let x = rest[ctx.rng.below(rest.len().min(30))];
    // what to look for: x, anything else, or nothing
    let mode = ctx.rng.below(5);
    let hit = |y: &T| match mode {
        0 => false,
        1 => *y != x,
        _ => *y == x,
    };
    let pos = rest.iter().position(hit);
    let end = pos.map_or(rest.len(), |p| p + 1);
    let mut looked = Vec::new();
    let mut look = |y: T| {
        looked.push(y);
        hit(&y)
    };
    let found = pos.map(|p| rest[p]);
    let name;
    match ctx.rng.below(12) {
        0 => {
            name = "find";
            let got = it.find(|y| look(*y));
            ensure!(got == found, "{what}: find() after {at} items is {got:?} instead of {found:?}");
        }
        1 => {
            name = "position";
            let got = it.position(look);
            ensure!(got == pos, "{what}: position() after {at} items is {got:?} instead of {pos:?}");
        }
        2 => {
            name = "any";
            let got = it.any(look);
            ensure!(got == pos.is_some(), "{what}: any() after {at} items is {got}");
        }
        3 => {
            name = "all";
            let got = it.all(|y| !look(y));
            ensure!(got == pos.is_none(), "{what}: all() after {at} items is {got}");
        }
        4 => {
            name = "find_map";
            let got = it.find_map(|y| look(y).then_some(y));
            ensure!(got == found, "{what}: find_map() after {at} items is {got:?} instead of {found:?}");
        }
        5 => {
            name = "take_while";
            let got: Vec<T> = it.by_ref().take_while(|y| !look(*y)).collect();
            ensure!(got == rest[..pos.unwrap_or(rest.len())], "{what}: take_while() after {at} items is {got:?}");
        }
        6 => {
            name = "skip_while";
            let got = it.by_ref().skip_while(|y| !look(*y)).next();
            ensure!(got == found, "{what}: skip_while() after {at} items is {got:?} instead of {found:?}");
        }
        7 => {
            name = "try_fold";
            let got = it.try_fold(0usize, |k, y| if look(y) { Err(k) } else { Ok(k + 1) });
            ensure!(got == pos.map_or(Ok(rest.len()), Err), "{what}: try_fold() after {at} items is {got:?}");
        }
        8 => {
            name = "try_for_each";
            let got = it.try_for_each(|y| if look(y) { None } else { Some(()) });
            ensure!(got.is_none() == pos.is_some(), "{what}: try_for_each() after {at} items is {got:?}");
        }
        9 => {
            name = "map_while";
            let got = it.by_ref().map_while(|y| if look(y) { None } else { Some(y) }).count();
            ensure!(got == pos.unwrap_or(rest.len()), "{what}: map_while() after {at} items has {got} items");
        }
        10 => {
            name = "filter";
            let got = it.by_ref().filter(|y| look(*y)).next();
            ensure!(got == found, "{what}: filter() after {at} items is {got:?} instead of {found:?}");
        }
        _ => {
            name = "step_by";
            let (k, m) = (ctx.rng.incl(1, 20), ctx.rng.incl(1, 6));
            let got: Vec<T> = it.by_ref().step_by(k).take(m).collect();
            let exp: Vec<T> = rest.iter().copied().step_by(k).take(m).collect();
            ensure!(got == exp, "{what}: step_by({k}) after {at} items is {got:?} instead of {exp:?}");
            // the items between the steps are used up before the next one, not after
            ctx.ev("search", 1);
            return Ok((at + (m - 1).saturating_mul(k) + 1).min(want.len()));
        }
    }
    ensure!(looked == rest[..end], "{what}: {name}() after {at} items looked at {} items {:?}... instead of {end}", looked.len(), &looked[..looked.len().min(20)]);
    ctx.ev("search", 1);
    Ok(at + end)
}

/// Whole-iterator consumers and adaptors.
pub fn consume<T: PartialEq + Ord + Copy + std::fmt::Debug, I: ExactSizeIterator<Item = T>>(ctx: &mut Ctx, mk: impl Fn() -> I, want: &[T], what: &str) -> R {
    let n = want.len();
    let got: Vec<T> = mk().collect();
    ensure!(got == want, "{what}: collected {} of {n} items, first difference at {:?}", got.len(), got.iter().zip(want).position(|(a, b)| a != b));
    ensure!(mk().count() == n, "{what}: count() is {} instead of {n}", mk().count());
    ensure!(mk().last() == want.last().copied(), "{what}: last()");
    ensure!(mk().max() == want.iter().copied().max(), "{what}: max()");
    ensure!(mk().zip(mk()).len() == n, "{what}: length of a zip");
    ensure!(mk().enumerate().len() == n, "{what}: length of an enumeration");
    let h = mk().fold(0u64, |h, x| mix(h, (x == want[0]) as u64));
    let h2 = want.iter().fold(0u64, |h, x| mix(h, (*x == want[0]) as u64));
    ensure!(h == h2, "{what}: fold()");
    let k = ctx.rng.incl(1, 70);
    ensure!(mk().step_by(k).eq(want.iter().copied().step_by(k)), "{what}: step_by({k})");
    let k = ctx.rng.incl(0, n + 2);
    ensure!(mk().skip(k).eq(want.iter().copied().skip(k)), "{what}: skip({k})");
    ensure!(mk().skip(k).len() == n.saturating_sub(k), "{what}: length after skip({k})");
    if n > 0 {
        let x = *ctx.rng.pick(want);
        ensure!(mk().position(|y| y == x) == want.iter().position(|y| *y == x), "{what}: position()");
        let mut i = 0;
        mk().for_each(|_| i += 1);
        ensure!(i == n, "{what}: for_each() ran {i} times");
    }
    let w = || want.iter().copied();
    ensure!(mk().min() == w().min(), "{what}: min()");
    ensure!(mk().max_by(|a, b| b.cmp(a)) == w().max_by(|a, b| b.cmp(a)), "{what}: max_by()");
    ensure!(mk().min_by(|a, b| b.cmp(a)) == w().min_by(|a, b| b.cmp(a)), "{what}: min_by()");
    let place = |(i, x): (usize, T)| (x, i % 5);
    ensure!(mk().enumerate().max_by_key(|p| place(*p)) == w().enumerate().max_by_key(|p| place(*p)), "{what}: max_by_key()");
    ensure!(mk().enumerate().min_by_key(|p| place(*p)) == w().enumerate().min_by_key(|p| place(*p)), "{what}: min_by_key()");
    let mut calls = 0;
    let got = mk().reduce(|a, b| {
        calls += 1;
        if calls % 3 == 0 { b } else { a.max(b) }
    });
    calls = 0;
    let exp = w().reduce(|a, b| {
        calls += 1;
        if calls % 3 == 0 { b } else { a.max(b) }
    });
    ensure!(got == exp, "{what}: reduce() is {got:?} instead of {exp:?}");
    let first = want.first().copied();
    let (a, b): (Vec<T>, Vec<T>) = mk().partition(|x| Some(*x) == first);
    let (c, d): (Vec<T>, Vec<T>) = w().partition(|x| Some(*x) == first);
    ensure!(a == c && b == d, "{what}: partition()");
    let (a, b): (Vec<T>, Vec<usize>) = mk().zip(0..).unzip();
    ensure!(a == want && b.iter().copied().eq(0..n), "{what}: unzip()");
    ensure!(mk().is_sorted() == want.is_sorted(), "{what}: is_sorted()");
    ensure!(mk().chain(mk()).eq(w().chain(w())), "{what}: chain()");
    ensure!(mk().fuse().eq(w()) && mk().peekable().eq(w()) && mk().inspect(|_| ()).eq(w()) && mk().map(|x| x).eq(w()), "{what}: adaptors");
    ensure!(mk().map(|x| x).len() == n && mk().peekable().len() == n && mk().fuse().len() == n, "{what}: lengths of adaptors");
    ensure!(mk().flat_map(|x| [x, x]).eq(w().flat_map(|x| [x, x])), "{what}: flat_map()");
    // comparisons, with a sequence that differs in one place or in length
    let mut other = want.to_vec();
    if n > 0 {
        match ctx.rng.below(4) {
            0 => {
                let (i, j) = (ctx.rng.below(n), ctx.rng.below(n));
                other[i] = want[j];
            }
            1 => {
                other.pop();
            }
            2 => other.push(want[0]),
            _ => {}
        }
    }
    let o = || other.iter().copied();
    let c = w().cmp(o());
    ensure!(mk().cmp(o()) == c && o().cmp(mk()) == c.reverse() && mk().partial_cmp(o()) == Some(c), "{what}: cmp() is not {c:?}");
    ensure!(mk().eq(o()) == c.is_eq() && mk().ne(o()) == c.is_ne() && o().eq(mk()) == c.is_eq(), "{what}: eq() or ne(), the order is {c:?}");
    ensure!(mk().lt(o()) == c.is_lt() && mk().le(o()) == c.is_le() && mk().gt(o()) == c.is_gt() && mk().ge(o()) == c.is_ge(), "{what}: lt(), le(), gt() or ge(), the order is {c:?}");
    ctx.ev("consumed item", 35 * n as u64);
    Ok(())
}

fn iter_all_lengths(ctx: &mut Ctx) -> R {
    let n = if ctx.small { ctx.idx * 20 } else { ctx.idx };
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    let v = make(&m);
    let want: Vec<bool> = m.iter().collect();
    ctx.desc(|| format!("iterating {n} bits of pattern {kind}"));
    ctx.distinct(m.hash());
    drive(ctx, v.iter(), &want, "BitVec::iter")?;
    drive(ctx, (&v).into_iter(), &want, "&BitVec")?;
    consume(ctx, || v.iter(), &want, "BitVec::iter")?;
    drive(ctx, v.slice(..).into_iter(), &want, "BitSlice::into_iter")?;
    consume(ctx, || v.slice(..).into_iter(), &want, "BitSlice::into_iter")?;
    let s = v.slice(..);
    drive(ctx, s.iter(), &want, "BitSlice::iter")?;
    drive(ctx, (&s).into_iter(), &want, "&BitSlice")?;
    drive(ctx, (*v).clone().into_iter(), &want, "owned bits")?;
    consume(ctx, || (*v).clone().into_iter(), &want, "owned bits")?;
    for x in 0..3 {
        let a = ctx.rng.incl(0, n);
        let b = ctx.rng.incl(a, n);
        drive(ctx, Iter::new(v.backing(), a, b), &want[a..b], "Iter::new")?;
        ctx.seen(x);
    }
    Ok(())
}

fn iter_views(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 4000, 200);
    let n = m.n;
    let mut v = make(&m);
    let r = ctx.good_range(n);
    let (a, b) = r.resolve(n).unwrap();
    let want: Vec<bool> = (a..b).map(|i| m.get(i)).collect();
    ctx.desc(|| format!("n={n} iterating the view {a}..{b}"));
    ctx.distinct(mix(m.hash(), mix(a as u64, b as u64)));
    match ctx.rng.below(6) {
        0 => drive(ctx, v.slice(r).into_iter(), &want, "slice")?,
        1 => drive(ctx, v.slice(r).iter(), &want, "slice.iter")?,
        2 => drive(ctx, v.slice_mut(r).into_iter(), &want, "slice_mut")?,
        3 => {
            let s = v.slice_mut(r);
            drive(ctx, s.iter(), &want, "slice_mut.iter")?
        }
        4 => {
            let s = v.slice(r);
            consume(ctx, || s.iter(), &want, "slice.iter")?
        }
        _ => {
            let k = ctx.rng.incl(0, b - a);
            let s = v.slice(r);
            let t = s.slice(k..);
            drive(ctx, t.into_iter(), &want[k..], "nested view")?;
            if b > a {
                let k = ctx.rng.below(b - a);
                let (l, r) = s.split_at(k);
                drive(ctx, l.iter(), &want[..k], "left part")?;
                drive(ctx, (&r).into_iter(), &want[k..], "right part")?;
            }
        }
    }
    // two iterators over the same bits do not disturb each other
    let s = v.slice(r);
    let (mut x, mut y) = (s.iter(), s.iter());
    let (mut i, mut j) = (0, 0);
    for _ in 0..20 {
        if ctx.rng.bool() {
            ensure!(x.next() == want.get(i).copied(), "interleaved iterator, item {i}");
            i += 1;
        } else {
            ensure!(y.next() == want.get(j).copied(), "interleaved iterator, item {j}");
            j += 1;
        }
    }
    // primitives
    let p = ctx.rng.u64();
    let (a, b) = (ctx.rng.incl(0, 64), ctx.rng.incl(0, 64));
    let (a, b) = (a.min(b), a.max(b));
    let want: Vec<bool> = (a..b).map(|i| p >> i & 1 == 1).collect();
    drive(ctx, BitSlice::new(p, a, b).into_iter(), &want, "view of a u64")?;
    audit(ctx, &v, &m, "after iterating")
}

fn iter_long(ctx: &mut Ctx) -> R {
    let m = random_bits(ctx, 400_000);
    let n = m.n;
    let v = make_bulk(&m);
    let r = ctx.good_range(n);
    let (a, b) = r.resolve(n).unwrap();
    let want: Vec<bool> = (a..b).map(|i| m.get(i)).collect();
    ctx.desc(|| format!("n={n} iterating the long view {a}..{b}"));
    ctx.distinct(mix(m.hash(), mix(a as u64, b as u64)));
    let s = v.slice(r);
    drive(ctx, s.iter(), &want, "long view")?;
    drive(ctx, v.slice(r).into_iter(), &want, "long view by value")?;
    consume(ctx, || s.iter(), &want, "long view")
}

fn huge_iter(ctx: &mut Ctx) -> R {
    let n = [(1usize << 32) + 1000, (1 << 33) + 5][ctx.idx % 2];
    let mut v = BitVec::new(n);
    ctx.desc(|| format!("n={n}: iterating across the 32 bit border"));
    ctx.distinct(n as u64);
    let a = (1usize << 32) - 500;
    for i in (a..n.min(a + 3000)).step_by(3) {
        v.set(i, true);
    }
    let s = v.slice(a..);
    let mut it = s.iter();
    for i in a..n.min(a + 3000) {
        ensure!(it.len() == n - i, "len() is {} at {i}", it.len());
        let e = (i - a) % 3 == 0;
        ensure!(it.next() == Some(e), "item {i}");
    }
    let it = v.iter();
    ensure!(it.len() == n && it.size_hint() == (n, Some(n)), "len() of {n} bits is {}", it.len());
    // all of them: the ones are where they were put
    let (mut items, mut ones, mut sum) = (0usize, 0usize, 0usize);
    for (i, b) in v.slice(..).into_iter().enumerate() {
        items += 1;
        if b {
            ones += 1;
            sum = sum.wrapping_add(i);
        }
    }
    let want: Vec<usize> = (a..n.min(a + 3000)).step_by(3).collect();
    ensure!(items == n && ones == want.len() && sum == want.iter().fold(0usize, |s, i| s.wrapping_add(*i)), "iterating {n} bits yields {items} bits and {ones} ones with position sum {sum}");
    let mut it = v.iter();
    let k = (1usize << 32) + 4;
    let want = (k - a) % 3 == 0;
    ensure!(it.nth(k) == Some(want) && it.len() == n - k - 1, "nth({k}) of {n} bits");
    ctx.ev("item", n as u64 + k as u64);
    ctx.ev("item", 3000);
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Places the bits `m` at an offset into a larger vector with other content around it.
fn embed(ctx: &mut Ctx, m: &Bits) -> (BitVec, usize) {
    let off = if ctx.rng.chance(1, 3) { 64 * ctx.rng.below(4) } else { ctx.rng.below(200) };
    let pad = if ctx.rng.chance(1, 4) { 0 } else { ctx.rng.below(200) };
    let kind = ctx.rng.below(Bits::KINDS);
    let mut big = Bits::pattern(kind, off + m.n + pad, &mut ctx.rng);
    for i in 0..m.n {
        big.set(off + i, m.get(i));
    }
    (make(&big), off)
}

fn expect_eq<A: BitGet, B: BitGet>(ctx: &mut Ctx, x: &BitSlice<A>, y: &BitSlice<B>, want: bool, what: &dyn Fn() -> String) -> R {
    ensure!((x == y) == want, "{}: == is {}", what(), !want);
    ensure!((y == x) == want, "{}: == is {} the other way around", what(), !want);
    ensure!((x != y) != want, "{}: != is {}", what(), want);
    #[allow(clippy::eq_op)]
    {
        ensure!(x == x && y == y, "{}: a view is not equal to itself", what());
    }
    ctx.ev("comparison", 5);
    Ok(())
}

fn eq_pairs(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 1500, 150);
    let n = m.n;
    let (mut v, a) = embed(ctx, &m);
    let (mut w, b) = embed(ctx, &m);
    ctx.desc(|| format!("{n} bits at offsets {a} and {b}"));
    ctx.distinct(mix(m.hash(), mix(a as u64, b as u64)));
    let what = |s: &str| format!("{n} bits at offsets {a} and {b}, {s}");
    expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), true, &|| what("equal"))?;
    // bits outside do not matter
    for _ in 0..3 {
        let i = ctx.rng.below(v.len().max(1));
        if i < v.len() && (i < a || i >= a + n) {
            v.flip(i);
            expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), true, &|| what(&format!("after flipping {i} outside")))?;
        }
    }
    if a > 0 {
        v.flip(a - 1);
    }
    if a + n < v.len() {
        v.flip(a + n);
    }
    expect_eq(ctx, &v.slice(a..a + n), &w.slice_mut(b..b + n), true, &|| what("after flipping the neighbours"))?;
    // different length, same prefix
    if n > 0 {
        let k = ctx.rng.below(n);
        expect_eq(ctx, &v.slice(a..a + k), &w.slice(b..b + n), false, &|| what(&format!("prefix of {k}")))?;
        expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n - 1), false, &|| what("one shorter"))?;
        expect_eq(ctx, &v.slice(a..a + k), &w.slice(b..b + k), true, &|| what(&format!("prefixes of {k}")))?;
        // any single difference
        for _ in 0..4 {
            let i = ctx.index(n);
            v.flip(a + i);
            expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), false, &|| what(&format!("bit {i} differs")))?;
            expect_eq(ctx, &v.slice_mut(a..a + n), &w.slice_mut(b..b + n), false, &|| what(&format!("bit {i} differs, mutable")))?;
            expect_eq(ctx, &v.slice(a..a + i), &w.slice(b..b + i), true, &|| what(&format!("up to bit {i}")))?;
            expect_eq(ctx, &v.slice(a + i + 1..a + n), &w.slice(b + i + 1..b + n), true, &|| what(&format!("after bit {i}")))?;
            w.flip(b + i);
            expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), true, &|| what(&format!("bit {i} flipped in both")))?;
        }
        // two differences that cancel in any sum
        if n > 1 {
            let (i, j) = (ctx.index(n), ctx.index(n));
            if i != j && v.get(a + i) != v.get(a + j) {
                v.flip(a + i);
                v.flip(a + j);
                expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), false, &|| what(&format!("bits {i} and {j} swapped")))?;
                v.flip(a + i);
                v.flip(a + j);
            }
        }
    }
    // whole vectors
    let x = make(&m);
    let y = make(&m);
    expect_eq(ctx, &*x, &*y, true, &|| format!("two vectors of {n} equal bits"))?;
    expect_eq(ctx, &*x, &v.slice(a..a + n), x.iter().eq(v.slice(a..a + n).iter()), &|| what("vector and view"))?;
    expect_eq(ctx, &*x, &*BitVec::new(n), m.ones() == 0, &|| format!("{n} bits and zeros"))?;
    expect_eq(ctx, &*BitVec::new(n), &*BitVec::new(n + 1), false, &|| format!("zeros of length {n} and {}", n + 1))?;
    // random pairs against the definition
    let o = random_bits(ctx, 70);
    let p = Bits::pattern(4, ctx.rng.below(3), &mut ctx.rng);
    let want = o.n == p.n && o.iter().eq(p.iter());
    expect_eq(ctx, &*make(&o), &*make(&p), want, &|| format!("{o:?} and {p:?}"))
}

/// Another content of the same length that has much in common with the first.
fn relative(ctx: &mut Ctx, m: &Bits) -> (Bits, String) {
    let n = m.n;
    let mut o = m.clone();
    if n == 0 {
        return (o, "nothing".into());
    }
    let step = *ctx.rng.pick(&[1usize, 2, 7, 32, 63, 64, 65, 128, 512, 4096]);
    let i = ctx.index(n);
    let what = match ctx.rng.below(8) {
        0 | 1 => {
            // two bits exchanged
            let j = if ctx.rng.bool() { (i + step) % n } else { ctx.index(n) };
            let (x, y) = (o.get(i), o.get(j));
            o.set(i, y);
            o.set(j, x);
            format!("bits {i} and {j} exchanged")
        }
        2 => {
            // two stretches exchanged
            let j = (i + step * ctx.rng.incl(1, 3)) % n;
            let l = step.min(n - i.max(j));
            for k in 0..l {
                let (x, y) = (o.get(i + k), o.get(j + k));
                o.set(i + k, y);
                o.set(j + k, x);
            }
            format!("{l} bits at {i} and {j} exchanged")
        }
        3 => {
            // the same bits flipped in two places
            let j = (i + step) % n;
            o.flip(i);
            o.flip(j);
            format!("bits {i} and {j} flipped")
        }
        4 => {
            for k in 0..n {
                o.set(k, m.get((k + step) % n));
            }
            format!("rotated by {step}")
        }
        5 => {
            for k in 0..n {
                o.set(k, m.get(n - 1 - k));
            }
            "reversed".into()
        }
        6 => {
            for k in 0..n {
                o.flip(k);
            }
            "complement".into()
        }
        _ => {
            let l = ctx.rng.incl(1, n - i);
            for k in i..i + l {
                o.flip(k);
            }
            format!("{l} bits at {i} flipped")
        }
    };
    (o, what)
}

/// Contents that agree in most bits, in their counts, or in everything but the order.
fn eq_relatives(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 6_000, 200);
    let n = m.n;
    let (v, a) = embed(ctx, &m);
    ctx.desc(|| format!("{n} bits at offset {a} and relatives"));
    ctx.distinct(mix(m.hash(), a as u64));
    for _ in 0..ctx.scale(4, 2) {
        let (o, text) = relative(ctx, &m);
        let (w, b) = embed(ctx, &o);
        let want = m.iter().eq(o.iter());
        expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), want, &|| format!("{n} bits at offsets {a} and {b}, {text}"))?;
        if !ctx.wide {
            expect_eq(ctx, &*make(&m), &*make(&o), want, &|| format!("vectors of {n} bits, {text}"))?;
        }
        ctx.ev(if want { "equal relatives" } else { "different relatives" }, 1);
    }
    Ok(())
}

fn eq_one_bit(ctx: &mut Ctx) -> R {
    // every single bit difference at every position of a view of this length
    let n = if ctx.small { ctx.idx * 9 } else { ctx.idx };
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    let (mut v, a) = embed(ctx, &m);
    let (w, b) = embed(ctx, &m);
    ctx.desc(|| format!("every single difference of {n} bits at offsets {a} and {b}"));
    ctx.distinct(m.hash());
    for i in 0..n {
        v.flip(a + i);
        expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), false, &|| format!("{n} bits at {a} and {b}, bit {i} differs"))?;
        v.flip(a + i);
    }
    expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), true, &|| format!("{n} bits at {a} and {b}"))
}

/// Views of one and the same vector, overlapping or not.
fn eq_same_vector(ctx: &mut Ctx) -> R {
    let mut m = random_bits_up_to(ctx, 1200, 150);
    let n = m.n;
    // contents that repeat, so that shifted views agree
    let p = if ctx.rng.bool() { *ctx.rng.pick(&[1usize, 2, 64, 63, 65, 128]) } else { ctx.rng.incl(1, 200) };
    if ctx.rng.chance(3, 4) {
        for i in p..n {
            let b = m.get(i - p);
            m.set(i, b);
        }
    }
    let mut v = make(&m);
    ctx.desc(|| format!("views of the same {n} bits with period {p}"));
    ctx.distinct(m.hash());
    for _ in 0..ctx.scale(12, 4) {
        let a = ctx.rng.incl(0, n);
        let b = match ctx.rng.below(4) {
            0 => a,
            1 => (a + p * ctx.rng.below(4)).min(n),
            _ => ctx.rng.incl(0, n),
        };
        let most = n - a.max(b);
        let len = if ctx.rng.bool() { most } else { ctx.rng.incl(0, most) };
        let mut len2 = len;
        if ctx.rng.chance(1, 6) {
            len2 = ctx.rng.incl(0, n - b);
        }
        if len > 0 && ctx.rng.chance(1, 3) {
            // one difference, at any place
            let i = a + ctx.index(len);
            v.flip(i);
            m.flip(i);
        }
        let want = len == len2 && (0..len).all(|i| m.get(a + i) == m.get(b + i));
        expect_eq(ctx, &v.slice(a..a + len), &v.slice(b..b + len2), want, &|| format!("views {a}..{} and {b}..{} of the same {n} bits", a + len, b + len2))?;
        let (s, t) = (v.slice(a..a + len), v.slice(b..b + len2));
        expect_eq(ctx, &s.slice(..), &t.slice(..), want, &|| format!("views of the views {a}..{} and {b}..{} of the same {n} bits", a + len, b + len2))?;
    }
    audit(ctx, &v, &m, "after comparing")
}

fn eq_long(ctx: &mut Ctx) -> R {
    let m = random_bits(ctx, 500_000);
    let n = m.n;
    let (mut v, a) = embed(ctx, &m);
    let (w, b) = embed(ctx, &m);
    ctx.desc(|| format!("{n} bits at offsets {a} and {b}"));
    ctx.distinct(mix(m.hash(), mix(a as u64, b as u64)));
    let what = |s: &str| format!("{n} bits at offsets {a} and {b}, {s}");
    expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), true, &|| what("equal"))?;
    for k in 0..8 {
        if n > 0 {
            let i = if k < 2 { n - 1 - ctx.rng.below(n.min(70)) } else { ctx.index(n) };
            v.flip(a + i);
            expect_eq(ctx, &v.slice(a..a + n), &w.slice(b..b + n), false, &|| what(&format!("bit {i} differs")))?;
            v.flip(a + i);
            expect_eq(ctx, &v.slice(a..a + i), &w.slice(b..b + n), false, &|| what(&format!("the first {i} bits and all of them")))?;
        }
    }
    Ok(())
}

/// More than 2^32 bits.
fn eq_huge(ctx: &mut Ctx) -> R {
    let n = (1usize << 32) + 77;
    ctx.desc(|| format!("n={n}: comparing beyond 32 bit positions"));
    ctx.distinct(n as u64);
    let mut v = BitVec::new(n);
    let w = BitVec::new(n + 1);
    // lengths that agree in their lower 32 bits
    for k in [0, 1, 5, 64] {
        let d = 1usize << 32;
        expect_eq_quick(ctx, &v.slice(..d + k), &w.slice(..k), false, &|| format!("{} and {k} zeros", d + k))?;
        expect_eq_quick(ctx, &w.slice(k..k), &v.slice(..d), false, &|| format!("0 and {d} zeros"))?;
    }
    expect_eq_quick(ctx, &*v, &*w, false, &|| format!("{n} and {} zeros", n + 1))?;
    v.set(n - 2, true);
    ensure!(*v != w.slice(..n), "{n} bits and {n} bits that differ at {}: != is false", n - 2);
    ctx.ev("comparison", 1);
    Ok(())
}

fn expect_eq_quick<A: BitGet, B: BitGet>(ctx: &mut Ctx, x: &BitSlice<A>, y: &BitSlice<B>, want: bool, what: &dyn Fn() -> String) -> R {
    ensure!((x == y) == want && (y == x) == want && (x != y) != want, "{}: should be {}", what(), if want { "equal" } else { "different" });
    ctx.ev("comparison", 3);
    Ok(())
}

fn eq_prims(ctx: &mut Ctx) -> R {
    let x = ctx.rng.u64();
    let sh = ctx.rng.below(33);
    let len = ctx.rng.incl(0, 64 - sh).min(31);
    let y = ((x >> sh) as u32) & ((1u32 << len) - 1);
    ctx.desc(|| format!("{x:#x} at {sh} and {y:#x}, {len} bits"));
    ctx.distinct(mix(x, mix(sh as u64, len as u64)));
    let a = BitSlice::new(x, sh, sh + len);
    let what = |s: &str| format!("{len} bits of {x:#x} at {sh}, {s}");
    expect_eq(ctx, &a, &BitSlice::new(y, 0, len), true, &|| what("u32"))?;
    expect_eq(ctx, &a, &BitSlice::new(Box::new(y as usize), 0, len), true, &|| what("Box<usize>"))?;
    expect_eq(ctx, &a, &BitSlice::new(Rc::new(y as u64), 0, len), true, &|| what("Rc<u64>"))?;
    let words = [0usize, (y as usize) << 5, !0];
    expect_eq(ctx, &a, &BitSlice::new(&words[..], 69, 69 + len), true, &|| what("[usize]"))?;
    if len > 0 {
        let i = ctx.rng.below(len);
        expect_eq(ctx, &a, &BitSlice::new(y ^ (1 << i), 0, len), false, &|| what(&format!("bit {i} differs")))?;
        expect_eq(ctx, &a, &BitSlice::new(y, 0, len - 1), false, &|| what("shorter"))?;
    }
    if len <= 8 {
        expect_eq(ctx, &a, &BitSlice::new(y as u8, 0, len), true, &|| what("u8"))?;
    }
    if len <= 16 {
        expect_eq(ctx, &a, &BitSlice::new(y as u16, 0, len), true, &|| what("u16"))?;
    }
    // different definitions of the same thing
    let b = BitSlice::new(ctx.rng.u64(), sh, sh + len);
    let want = a.iter().eq(b.iter());
    expect_eq(ctx, &a, &b, want, &|| what("random"))
}

// ---------------------------------------------------------------- C08

fn prim_one<T: Prim>(ctx: &mut Ctx, x: u64) -> R {
    let x = T::of(x).val();
    for i in 0..T::BITS {
        let v = T::of(x);
        let bit = x >> i & 1 == 1;
        ensure!(v.get_bit(i) == bit, "{} {x:#x}: get_bit({i}) is {}", T::NAME, !bit);
        for b in [false, true] {
            let mut v = T::of(x);
            v.set_bit(i, b);
            let want = if b { x | 1 << i } else { x & !(1 << i) };
            ensure!(v.val() == want, "{} {x:#x}: set_bit({i}, {b}) gives {:#x} instead of {want:#x}", T::NAME, v.val());
        }
        let mut v = T::of(x);
        v.flip_bit(i);
        ensure!(v.val() == x ^ 1 << i, "{} {x:#x}: flip_bit({i}) gives {:#x}", T::NAME, v.val());
    }
    ctx.ev("primitive operation", 4 * T::BITS as u64);
    Ok(())
}

fn prims_all(ctx: &mut Ctx) -> R {
    let hi = ctx.idx;
    ctx.desc(|| format!("the u8 {hi}, and all u16 with high byte {hi}"));
    ctx.distinct(ctx.idx as u64);
    prim_one::<u8>(ctx, ctx.idx as u64)?;
    let lows = ctx.scale(256, 3);
    for lo in 0..lows as u64 {
        prim_one::<u16>(ctx, (ctx.idx as u64) << 8 | lo)?;
    }
    Ok(())
}

fn prims_random(ctx: &mut Ctx) -> R {
    let x = match ctx.rng.below(6) {
        0 => 0,
        1 => !0,
        2 => 1 << ctx.rng.below(64),
        3 => !(1 << ctx.rng.below(64)),
        4 => ctx.mined(usize::MAX) as u64,
        _ => ctx.rng.u64(),
    };
    ctx.desc(|| format!("primitives with value {x:#x}"));
    ctx.distinct(x);
    prim_one::<u8>(ctx, x)?;
    prim_one::<u16>(ctx, x)?;
    prim_one::<u32>(ctx, x)?;
    prim_one::<u64>(ctx, x)?;
    prim_one::<usize>(ctx, x)
}

fn words_backing(ctx: &mut Ctx) -> R {
    let w0 = random_words(ctx, ctx.scale(12, 4));
    let n = w0.len() * 64;
    let mut m = Bits { w: w0.iter().map(|w| *w as u64).chain([0]).collect(), n };
    ctx.desc(|| format!("{} words", w0.len()));
    ctx.distinct(m.hash());
    let mut w = w0.clone();
    let s: &mut [usize] = &mut w;
    for i in 0..n {
        ensure!(s.get_bit(i) == m.get(i), "bit {i} of words {w0:x?} is {}", s.get_bit(i));
    }
    for _ in 0..ctx.scale(40, 10) {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        if ctx.rng.bool() {
            let b = ctx.rng.bool();
            s.set_bit(i, b);
            m.set(i, b);
        } else {
            s.flip_bit(i);
            m.flip(i);
        }
        ensure!(s.iter().map(|x| *x as u64).eq(m.words().iter().copied()), "after modifying bit {i}: {s:x?} instead of {:x?}", m.words());
    }
    ctx.ev("word operation", 40 + n as u64);
    Ok(())
}

fn raw_layout(ctx: &mut Ctx) -> R {
    let mut m = random_bits_up_to(ctx, 2000, 200);
    let n = m.n;
    let mut v = make(&m);
    ctx.desc(|| format!("words of a vector of {n} bits"));
    ctx.distinct(m.hash());
    for step in 0..ctx.scale(20, 4) {
        let raw = v.raw();
        ensure!(raw.iter().map(|x| *x as u64).eq(m.words().iter().copied()), "step {step}: the words of {n} bits are {raw:x?} instead of {:x?}", m.words());
        ensure!(AsRef::<[usize]>::as_ref(&v) == raw, "AsRef<[usize]> differs from raw()");
        ensure!(&**v.backing() == raw, "backing() differs from raw()");
        for i in 0..n.min(200) {
            ensure!(raw.get_bit(i) == v.get(i), "bit {i} of the words differs from bit {i} of the vector");
        }
        ctx.ev("layout check", 1);
        if n > 0 {
            let i = ctx.index(n);
            match ctx.rng.below(3) {
                0 => {
                    v.flip(i);
                    m.flip(i)
                }
                1 => {
                    v.set(i, true);
                    m.set(i, true)
                }
                _ => {
                    let j = ctx.rng.incl(i, n);
                    let mut s = v.slice_mut(i..j);
                    for k in 0..j - i {
                        s.flip(k);
                        m.flip(i + k);
                    }
                }
            }
        }
    }
    // a vector over given words shows exactly their bits
    let w = make_bulk(&m);
    audit(ctx, &w, &m, "vector over given words")
}

/// The same accesses through an indirection give the same result.
fn through<B: BitGet + BitModify>(ctx: &mut Ctx, b: &mut B, m: &mut Bits, what: &str) -> R {
    for i in 0..m.n {
        ensure!(b.get_bit(i) == m.get(i), "{what}: bit {i} is {}", b.get_bit(i));
    }
    for _ in 0..ctx.scale(20, 6) {
        if m.n == 0 {
            break;
        }
        let i = ctx.index(m.n);
        if ctx.rng.bool() {
            let v = ctx.rng.bool();
            b.set_bit(i, v);
            m.set(i, v);
        } else {
            b.flip_bit(i);
            m.flip(i);
        }
        ensure!(b.get_bit(i) == m.get(i), "{what}: bit {i} reads {} after modifying it", b.get_bit(i));
    }
    for i in 0..m.n {
        ensure!(b.get_bit(i) == m.get(i), "{what}: bit {i} is {} after modifications", b.get_bit(i));
    }
    ctx.ev("indirect access", 20 + 2 * m.n as u64);
    Ok(())
}

fn pointers(ctx: &mut Ctx) -> R {
    let x = ctx.rng.u64();
    ctx.desc(|| format!("indirections to {x:#x}"));
    ctx.distinct(x);
    let model = |x: u64, n: usize| Bits { w: vec![if n < 64 { x & ((1 << n) - 1) } else { x }, 0], n };
    let mut m = model(x, 8);
    let mut b = Box::new(x as u8);
    through(ctx, &mut b, &mut m, "Box<u8>")?;
    ensure!(*b as u64 == m.w[0], "Box<u8> holds {:#x} instead of {:#x}", *b, m.w[0]);
    let mut m = model(x, 16);
    let mut y = x as u16;
    through(ctx, &mut &mut y, &mut m, "&mut u16")?;
    ensure!(y as u64 == m.w[0], "&mut u16 wrote {y:#x} instead of {:#x}", m.w[0]);
    let mut m = model(x, 64);
    let mut y = x;
    through(ctx, &mut Box::new(&mut y), &mut m, "Box<&mut u64>")?;
    ensure!(y == m.w[0], "Box<&mut u64> wrote {y:#x} instead of {:#x}", m.w[0]);
    let rc = Rc::new(x as u32);
    for i in 0..32 {
        ensure!(rc.get_bit(i) == (x >> i & 1 == 1), "Rc<u32>: bit {i} of {x:#x}");
        ensure!(BitGet::get_bit(&&&x, i) == (x >> i & 1 == 1), "&&u64: bit {i} of {x:#x}");
    }
    ctx.ev("indirect access", 64);
    let w = random_words(ctx, 4);
    let mut m = Bits { w: w.iter().map(|w| *w as u64).chain([0]).collect(), n: w.len() * 64 };
    let mut b = w.clone().into_boxed_slice();
    through(ctx, &mut b, &mut m, "Box<[usize]>")?;
    let mut bb = Box::new(b);
    through(ctx, &mut bb, &mut m, "Box<Box<[usize]>>")?;
    ensure!(bb.iter().map(|x| *x as u64).eq(m.words().iter().copied()), "Box<[usize]> holds {bb:x?}");
    let mut c = w.clone();
    let mut m = Bits { w: w.iter().map(|w| *w as u64).chain([0]).collect(), n: w.len() * 64 };
    through(ctx, &mut &mut c[..], &mut m, "&mut [usize]")?;
    ensure!(c.iter().map(|x| *x as u64).eq(m.words().iter().copied()), "&mut [usize] wrote {c:x?}");
    // views as backings, shared and owned
    let m2 = random_bits(ctx, 200);
    let v = make(&m2);
    let rv = Rc::new(v.slice(..));
    for i in 0..m2.n {
        ensure!(rv.get_bit(i) == m2.get(i), "Rc<BitSlice>: bit {i}");
    }
    let mut m3 = m2.clone();
    let mut own: Box<BitSlice<Box<[usize]>>> = Box::new((*v).clone());
    through(ctx, &mut own, &mut m3, "Box<BitSlice>")?;
    audit(ctx, &v, &m2, "after modifying a copy")?;
    // behind trait objects
    let any: Vec<(Box<dyn BitGet>, Bits)> = vec![
        (Box::new(x as u8), model(x, 8)),
        (Box::new(x), model(x, 64)),
        (Box::new(w.clone().into_boxed_slice()), Bits { w: w.iter().map(|w| *w as u64).chain([0]).collect(), n: w.len() * 64 }),
        (Box::new((*v).clone()), m2.clone()),
    ];
    for (b, m) in &any {
        let s = BitSlice::new(b, 0, m.n);
        for i in 0..m.n {
            ensure!(b.get_bit(i) == m.get(i) && s.get(i) == m.get(i), "Box<dyn BitGet> over {} bits: bit {i}", m.n);
        }
        ctx.ev("indirect access", 2 * m.n as u64);
    }
    // a vector behind a pointer
    let mut m4 = m2.clone();
    let mut bv = make(&m4);
    if m4.n > 0 {
        let mut bx = Box::new(&mut *bv);
        for _ in 0..10 {
            let i = ctx.index(m4.n);
            bx.flip_bit(i);
            m4.flip(i);
        }
    }
    audit(ctx, &bv, &m4, "vector behind a pointer")
}

// ---------------------------------------------------------------- C09

fn unchecked_bitvec(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 1500, 150);
    let n = m.n;
    let mut a = make(&m);
    let mut b = make(&m);
    ctx.desc(|| format!("unchecked against checked accesses of {n} bits"));
    ctx.distinct(m.hash());
    for _ in 0..ctx.scale(40, 10) {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        let v = ctx.rng.bool();
        let op = ctx.rng.below(6);
        // SAFETY: i is in bounds
        unsafe {
            match op {
                0 => {
                    a.set_bit_unchecked(i, v);
                    b.set_bit(i, v);
                }
                1 => {
                    a.set_unchecked(i, v);
                    b.set(i, v);
                }
                2 => {
                    a.flip_bit_unchecked(i);
                    b.flip_bit(i);
                }
                3 => {
                    a.flip_unchecked(i);
                    b.flip(i);
                }
                4 => ensure!(a.get_unchecked(i) == b.get(i), "get_unchecked({i}) of {n} bits is {}", a.get_unchecked(i)),
                _ => ensure!(a.get_bit_unchecked(i) == b.get_bit(i), "get_bit_unchecked({i}) of {n} bits is {}", a.get_bit_unchecked(i)),
            }
        }
        ctx.ev("unchecked access", 1);
        ensure!(a.raw() == b.raw(), "operation {op} at {i} of {n} bits: the unchecked variant has another effect");
    }
    for i in 0..n {
        ensure!(unsafe { a.get_bit_unchecked(i) } == b.get_bit(i), "get_bit_unchecked({i}) of {n} bits");
    }
    Ok(())
}

fn unchecked_views(ctx: &mut Ctx) -> R {
    let m = random_bits_up_to(ctx, 1000, 150);
    let n = m.n;
    let mut a = make(&m);
    let mut b = make(&m);
    let r = ctx.good_range(n);
    let (lo, hi) = r.resolve(n).unwrap();
    let len = hi - lo;
    ctx.desc(|| format!("n={n} unchecked view {lo}..{hi}"));
    ctx.distinct(mix(m.hash(), mix(lo as u64, hi as u64)));
    // SAFETY: the range is valid, and so are the indices below
    unsafe {
        ensure!(a.slice_unchecked(r) == b.slice(r), "slice_unchecked({r:?}) of {n} bits differs from slice");
        ensure!(a.slice_unchecked(r).len() == len, "slice_unchecked({r:?}) of {n} bits has length {}", a.slice_unchecked(r).len());
        {
            let mut s = a.slice_unchecked_mut(r);
            let mut t = b.slice_mut(r);
            ensure!(s.len() == t.len(), "slice_unchecked_mut({r:?}) of {n} bits has length {}", s.len());
            for _ in 0..ctx.scale(12, 6) {
                if len == 0 {
                    break;
                }
                let i = ctx.index(len);
                let v = ctx.rng.bool();
                match ctx.rng.below(5) {
                    0 => {
                        s.set_bit_unchecked(i, v);
                        t.set_bit(i, v)
                    }
                    1 => {
                        s.set_unchecked(i, v);
                        t.set(i, v)
                    }
                    2 => {
                        s.flip_bit_unchecked(i);
                        t.flip_bit(i)
                    }
                    3 => {
                        s.flip_unchecked(i);
                        t.flip(i)
                    }
                    _ => ensure!(s.get_unchecked(i) == t.get(i) && s.get_bit_unchecked(i) == t.get_bit(i), "unchecked get({i}) in {lo}..{hi}"),
                }
                ensure!(s.get_bit_unchecked(i) == t.get_bit(i), "unchecked access to {i} in {lo}..{hi}");
                ctx.ev("unchecked access", 1);
            }
            // a view of the view
            let r2 = ctx.good_range(len);
            ensure!(s.slice_unchecked(r2) == t.slice(r2), "slice_unchecked({r2:?}) of the view {lo}..{hi}");
            let (c, d) = r2.resolve(len).unwrap();
            let mut s2 = s.slice_unchecked_mut(r2);
            let mut t2 = t.slice_mut(r2);
            for i in 0..(d - c).min(8) {
                s2.flip_bit_unchecked(i);
                t2.flip_bit(i);
            }
            ensure!(s2 == t2, "slice_unchecked_mut({r2:?}) of the view {lo}..{hi} at {c}");
            ctx.ev("unchecked view", 4);
        }
        ensure!(a.raw() == b.raw(), "writing through the unchecked view {lo}..{hi} of {n} bits has another effect");
        if len > 0 {
            let k = ctx.rng.below(len);
            {
                let mut s = a.slice_mut(r);
                let (mut l, mut rr) = s.split_at_mut(k);
                let mut t = b.slice_mut(r);
                let (mut l2, mut rr2) = t.split_at_mut(k);
                if k > 0 {
                    l.set_bit_unchecked(k - 1, true);
                    l2.set_bit(k - 1, true);
                    l.flip_unchecked(0);
                    l2.flip(0);
                    ensure!(l.get_unchecked(0) == l2.get(0), "unchecked get in the left part");
                }
                rr.flip_bit_unchecked(0);
                rr2.flip_bit(0);
                rr.set_unchecked(len - k - 1, false);
                rr2.set(len - k - 1, false);
                ensure!(rr.get_bit_unchecked(0) == rr2.get_bit(0), "unchecked get in the right part");
                ctx.ev("unchecked access", 6);
            }
            ensure!(a.raw() == b.raw(), "unchecked writes to the parts of {lo}..{hi} split at {k} have another effect");
        }
    }
    Ok(())
}

fn unchecked_backings(ctx: &mut Ctx) -> R {
    fn prim<T: Prim>(ctx: &mut Ctx, x: u64) -> R {
        for i in 0..T::BITS {
            let (mut a, mut b) = (T::of(x), T::of(x));
            // SAFETY: i is in bounds
            unsafe {
                ensure!(a.get_bit_unchecked(i) == b.get_bit(i), "{} {x:#x}: get_bit_unchecked({i})", T::NAME);
                let v = ctx.rng.bool();
                a.set_bit_unchecked(i, v);
                b.set_bit(i, v);
                ensure!(a.val() == b.val(), "{} {x:#x}: set_bit_unchecked({i}, {v})", T::NAME);
                a.flip_bit_unchecked(i);
                b.flip_bit(i);
                ensure!(a.val() == b.val(), "{} {x:#x}: flip_bit_unchecked({i})", T::NAME);
                let mut bx = Box::new(a);
                BitModify::set_bit_unchecked(&mut bx, i, v);
                b.set_bit(i, v);
                ensure!(bx.val() == b.val() && BitGet::get_bit_unchecked(&bx, i) == v, "Box<{}> {x:#x}: unchecked access to {i}", T::NAME);
                BitModify::flip_bit_unchecked(&mut bx, i);
                ensure!(BitGet::get_bit_unchecked(&&*bx, i) != v, "Box<{}> {x:#x}: flip_bit_unchecked({i})", T::NAME);
                let mut c = *bx;
                BitModify::flip_bit_unchecked(&mut &mut c, i);
                BitModify::set_bit_unchecked(&mut &mut c, (i + 1) % T::BITS, v);
                b.set_bit((i + 1) % T::BITS, v);
                ensure!(c.val() == b.val(), "&mut {} {x:#x}: unchecked access to {i}", T::NAME);
                ensure!(BitGet::get_bit_unchecked(&&mut c, i) == b.get_bit(i), "&mut {} {x:#x}: get_bit_unchecked({i})", T::NAME);
                ensure!(BitGet::get_bit_unchecked(&Rc::new(c), i) == b.get_bit(i), "Rc<{}> {x:#x}: get_bit_unchecked({i})", T::NAME);
            }
        }
        ctx.ev("unchecked access", 10 * T::BITS as u64);
        Ok(())
    }
    let x = ctx.rng.u64();
    ctx.desc(|| format!("unchecked accesses of primitives and words, {x:#x}"));
    ctx.distinct(x);
    prim::<u8>(ctx, x)?;
    prim::<u16>(ctx, x)?;
    prim::<u32>(ctx, x)?;
    prim::<u64>(ctx, x)?;
    prim::<usize>(ctx, x)?;
    let w = random_words(ctx, 5);
    let (mut a, mut b) = (w.clone(), w.clone().into_boxed_slice());
    let n = w.len() * 64;
    for _ in 0..20 {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        let v = ctx.rng.bool();
        // SAFETY: i is in bounds
        unsafe {
            match ctx.rng.below(3) {
                0 => {
                    a[..].set_bit_unchecked(i, v);
                    BitModify::set_bit(&mut b, i, v)
                }
                1 => {
                    a[..].flip_bit_unchecked(i);
                    BitModify::flip_bit(&mut b, i)
                }
                _ => ensure!(a[..].get_bit_unchecked(i) == b.get_bit(i) && b.get_bit_unchecked(i) == a[..].get_bit(i), "get_bit_unchecked({i})"),
            }
        }
        ensure!(*a == *b, "unchecked access to {i} of {n} bits in words");
        ctx.ev("unchecked access", 1);
    }
    Ok(())
}

fn unchecked_huge(ctx: &mut Ctx) -> R {
    let n = [(1usize << 33) + 99, (1 << 32) + 5][ctx.idx % 2];
    let mut v = BitVec::new(n);
    ctx.desc(|| format!("n={n}: unchecked accesses beyond 32 bit positions"));
    ctx.distinct(n as u64);
    for i in spots(ctx, n, 300) {
        // SAFETY: i is in bounds
        unsafe {
            v.set_bit_unchecked(i, true);
            ensure!(v.get(i) && v.get_unchecked(i), "set_bit_unchecked({i}) of {n} bits");
            v.flip_unchecked(i);
            ensure!(!v.get(i) && !v.get_bit_unchecked(i), "flip_unchecked({i}) of {n} bits");
            {
                let mut s = v.slice_unchecked_mut(i..);
                ensure!(s.len() == n - i, "slice_unchecked_mut({i}..) of {n} bits has length {}", s.len());
                s.flip_bit_unchecked(0);
            }
            ensure!(v.get(i) && v.slice_unchecked(..=i).get_unchecked(i), "writing through slice_unchecked_mut({i}..) of {n} bits");
            let s = v.slice(i / 2..);
            ensure!(s.get_unchecked(i - i / 2), "get_unchecked({}) of a view from {}", i - i / 2, i / 2);
            v.set_unchecked(i, false);
        }
        ctx.ev("unchecked access", 9);
    }
    ensure!(v.raw().iter().all(|w| *w == 0), "unchecked writes changed other bits of {n}");
    // words
    let mut w = vec![0usize; n.div_ceil(64)];
    for i in spots(ctx, n, 300) {
        // SAFETY: i is in bounds
        unsafe {
            w[..].set_bit_unchecked(i, true);
            ensure!(w[..].get_bit(i) && w[i / 64] == 1 << (i % 64), "set_bit_unchecked({i}) of {} words", w.len());
            w[..].flip_bit_unchecked(i);
            ensure!(!w[..].get_bit_unchecked(i), "flip_bit_unchecked({i}) of {} words", w.len());
        }
        ctx.ev("unchecked access", 3);
    }
    ensure!(w.iter().all(|w| *w == 0), "unchecked writes changed other words");
    Ok(())
}

// ---------------------------------------------------------------- C23

fn clone_huge(ctx: &mut Ctx) -> R {
    let n = (1usize << 32) + 130;
    let mut v = BitVec::new(n);
    ctx.desc(|| format!("n={n}: a copy of more than 2^32 bits"));
    ctx.distinct(n as u64);
    let at = spots(ctx, n, 1000);
    at.iter().for_each(|i| v.set(*i, true));
    let mut c = v.clone();
    ensure!(c.len() == n && c.raw() == v.raw(), "the copy of {n} bits differs");
    at.iter().for_each(|i| c.set(*i, false));
    ensure!(at.iter().all(|i| v.get(*i)), "modifying a copy of {n} bits changed the original");
    ensure!(c.raw().iter().all(|w| *w == 0), "the copy of {n} bits had other bits");
    ctx.ev("copy", 1);
    Ok(())
}

fn clones(ctx: &mut Ctx) -> R {
    let m0 = random_bits_up_to(ctx, 1500, 150);
    let n = m0.n;
    let mut ms = vec![m0.clone()];
    let mut vs = vec![make(&m0)];
    ctx.desc(|| format!("copies of {n} bits that go their own way"));
    ctx.distinct(m0.hash());
    for step in 0..ctx.scale(24, 8) {
        let k = ctx.rng.below(vs.len());
        match ctx.rng.below(4) {
            0 if vs.len() < 4 => {
                let c = vs[k].clone();
                ensure!(*c == *vs[k] && c.len() == n, "step {step}: the copy differs from its source");
                vs.push(c);
                let mc = ms[k].clone();
                ms.push(mc);
                ctx.ev("copy", 1);
            }
            1 if vs.len() > 1 => {
                vs.swap_remove(k);
                ms.swap_remove(k);
                ctx.ev("drop", 1);
            }
            _ => {
                if n > 0 {
                    let i = ctx.index(n);
                    vs[k].flip(i);
                    ms[k].flip(i);
                    ctx.ev("modification", 1);
                }
            }
        }
        for (v, m) in vs.iter().zip(&ms) {
            ensure!(v.raw().iter().map(|x| *x as u64).eq(m.words().iter().copied()), "step {step}: a copy of {n} bits has unexpected content");
        }
    }
    for (v, m) in vs.iter().zip(&ms) {
        audit(ctx, v, m, "copy at the end")?;
    }
    // copies of views
    let r = ctx.good_range(n);
    let (a, b) = r.resolve(n).unwrap();
    let s = vs[0].slice(r);
    let t = s.clone();
    check_view(ctx, &t, &ms[0], a, b, &|| format!("copy of the view {a}..{b}"))?;
    ensure!(s == t, "the copy of a view differs");
    let mut own: BitSlice<Box<[usize]>> = (*vs[0]).clone();
    for i in 0..n.min(10) {
        own.flip(i);
    }
    audit(ctx, &vs[0], &ms[0], "after modifying an owned copy of the view")?;
    // copies into existing vectors, of another length as well
    let len = match ctx.rng.below(4) {
        0 => n,
        1 => (n + 63) / 64 * 64,
        2 => (n + 1).saturating_sub(ctx.rng.below(3)),
        _ => ctx.len(ctx.scale(1500, 150)),
    };
    let kind = ctx.rng.below(Bits::KINDS);
    let other = Bits::pattern(kind, len, &mut ctx.rng);
    let mut target = make(&other);
    target.clone_from(&vs[0]);
    audit(ctx, &target, &ms[0], "copy into an existing vector")?;
    ensure!(target.raw() == vs[0].raw(), "the words of a copy into an existing vector of {len} bits differ");
    let mut source = make(&other);
    source.slice_mut(..).into_iter().for_each(drop);
    vs[0].clone_from(&source);
    audit(ctx, &vs[0], &other, "copy into an existing vector")?;
    if len > 0 {
        let i = ctx.index(len);
        vs[0].flip(i);
        source.flip(i / 2);
        let mut x = other.clone();
        x.flip(i);
        audit(ctx, &vs[0], &x, "copy into an existing vector, modified")?;
        x = other.clone();
        x.flip(i / 2);
        audit(ctx, &source, &x, "source of a copy, modified")?;
    }
    own.clone_from(&source);
    ensure!(own == *source && own.backing() == source.backing(), "a view copied into an existing one differs");
    // contents that are a part of a larger storage
    let b: Box<[usize]> = (0..ctx.rng.incl(1, 8)).map(|_| ctx.rng.u64() as usize).collect();
    let e = ctx.rng.incl(0, b.len() * 64);
    let s = ctx.rng.incl(0, e);
    let m = part(&b, s, e);
    let mut v = BitVec::new(ctx.rng.below(100));
    *v = BitSlice::new(b, s, e);
    let mut c = v.clone();
    ensure!(c.len() == m.n && c.iter().eq(m.iter()) && *c == *v, "a copy of bits {s}..{e} of a larger storage differs");
    if e > s {
        let i = ctx.rng.below(e - s);
        v.as_mut().flip(i);
        ensure!(c.iter().eq(m.iter()), "modifying bit {i} of bits {s}..{e} of a larger storage changed a copy of it");
        v.as_mut().flip(i);
        c.as_mut().flip(i);
        ensure!(v.iter().eq(m.iter()), "modifying bit {i} of a copy of bits {s}..{e} of a larger storage changed the original");
    }
    ctx.ev("copy", 5);
    Ok(())
}

fn part(b: &[usize], s: usize, e: usize) -> Bits {
    let mut m = Bits::zeros(e - s);
    for i in s..e {
        m.set(i - s, b[i / 64] >> (i % 64) & 1 == 1);
    }
    m
}

/// Takes so many bytes and no more.
struct Full(usize);

impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

/// Compares what it is given with the expected text.
struct Reader<'a> {
    bits: &'a Bits,
    at: usize,
}

impl Reader<'_> {
    fn want(&self, at: usize) -> Option<u8> {
        let end = (3 * self.bits.n).max(2) - 1;
        match at {
            0 => Some(b'{'),
            _ if at == end => Some(b'}'),
            _ if at > end => None,
            _ => Some([b'0' + self.bits.get((at - 1) / 3) as u8, b',', b' '][(at - 1) % 3]),
        }
    }
}

impl std::fmt::Write for Reader<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.want(self.at) != Some(b) {
                return Err(std::fmt::Error);
            }
            self.at += 1;
        }
        Ok(())
    }
}

fn debug_long(ctx: &mut Ctx) -> R {
    let e = [16, 17, 20, 22, 23][ctx.idx % 5];
    let n = (1usize << e) + ctx.rng.below(1 << 10);
    let kind = ctx.rng.below(Bits::KINDS);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    ctx.desc(|| format!("text of {n} bits"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let mut r = Reader { bits: &m, at: 0 };
    let done = std::fmt::write(&mut r, format_args!("{v:?}"));
    ensure!(done.is_ok() && r.want(r.at).is_none(), "the debug text of {n} bits differs after {} characters", r.at);
    ctx.ev("text", 1);
    ensure!(v.raw().iter().map(|w| *w as u64).eq(m.words().iter().copied()), "formatting {n} bits changed them");
    Ok(())
}

fn debug_text(ctx: &mut Ctx) -> R {
    let max = if ctx.rng.chance(1, 40) { 40_000 } else { 700 };
    let m = random_bits(ctx, ctx.scale(max, 100));
    let v = make(&m);
    ctx.desc(|| format!("text of {} bits", m.n));
    ctx.distinct(m.hash());
    let want = format!("{{{}}}", m.iter().map(|b| if b { "1" } else { "0" }).collect::<Vec<_>>().join(", "));
    let got = format!("{v:?}");
    ensure!(got == want, "debug text of {} bits is {got} instead of {want}", m.n);
    ctx.ev("text", 1);
    // other ways of asking may change the spaces, but not what is listed
    for got in [format!("{v:#?}"), format!("{v:7?}"), format!("{:?}", &&v), format!("{:?}", Box::new(v.clone()))] {
        let bits: String = got.chars().filter(|c| !c.is_whitespace() && *c != ',').collect();
        ensure!(bits.len() == m.n + 2 && bits.starts_with('{') && bits.ends_with('}'), "debug text of {} bits is {got}", m.n);
        ensure!(bits[1..].chars().zip(m.iter()).all(|(c, b)| c == if b { '1' } else { '0' }), "debug text of {} bits is {got} instead of {want}", m.n);
        ctx.ev("text with options", 1);
    }
    // a writer that fails is reported and leaves the vector alone
    if m.n > 0 {
        let mut full = Full(ctx.rng.below(want.len()));
        ensure!(std::fmt::write(&mut full, format_args!("{v:?}")).is_err(), "writing the text of {} bits to a full writer succeeds", m.n);
        ctx.ev("text for a full writer", 1);
    }
    audit(ctx, &v, &m, "after formatting")?;
    if m.n > 0 && m.n < 2000 {
        // parts of a larger storage
        let (b, s) = (v.raw().to_vec().into_boxed_slice(), ctx.rng.incl(0, m.n));
        let e = ctx.rng.incl(s, m.n);
        let m = part(&b, s, e);
        let mut v = BitVec::new(0);
        *v = BitSlice::new(b, s, e);
        let want = format!("{{{}}}", m.iter().map(|b| if b { "1" } else { "0" }).collect::<Vec<_>>().join(", "));
        let got = format!("{v:?}");
        ensure!(got == want, "debug text of bits {s}..{e} of a larger storage is {got} instead of {want}");
        ctx.ev("text", 1);
    }
    Ok(())
}

// ------------------------------------------------------- contents that are a part of their words

/// A vector whose content was replaced by a part of some words, the bits of all
/// of these words, where the part begins and how many bits it has.
fn in_words(ctx: &mut Ctx) -> (BitVec, Bits, usize, usize) {
    let n = ctx.len(ctx.scale(1200, 120));
    let off = match ctx.rng.below(4) {
        0 => 64 * ctx.rng.below(4),
        1 => 0,
        _ => ctx.rng.below(200),
    };
    let after = if ctx.rng.chance(1, 4) { 0 } else { ctx.rng.below(200) };
    let kind = ctx.rng.below(Bits::KINDS);
    let big = Bits::pattern(kind, (off + n + after).div_ceil(64) * 64, &mut ctx.rng);
    let words: Vec<usize> = big.words().iter().map(|x| *x as usize).collect();
    let mut v = match ctx.rng.below(3) {
        0 => BitVec::new(n),
        1 => BitVec::new(n + ctx.rng.below(200)),
        _ => BitVec::new(ctx.rng.below(100)),
    };
    *v = BitSlice::new(words.into_boxed_slice(), off, off + n);
    ctx.desc(|| format!("a vector whose content is the {n} bits at {off} of {}", big.n));
    ctx.distinct(mix(big.hash(), mix(off as u64, n as u64)));
    (v, big, off, n)
}

/// The content and the bits around it are as expected.
fn audit_part(ctx: &mut Ctx, v: &BitVec, big: &Bits, off: usize, n: usize, when: &str) -> R {
    ctx.stats.audits += 1;
    check_view(ctx, v, big, off, off + n, &|| when.to_string())?;
    ensure!(v.raw().iter().map(|x| *x as u64).eq(big.words().iter().copied()), "{when}: the words around {n} bits at {off} changed");
    Ok(())
}

fn part_history(ctx: &mut Ctx) -> R {
    let (mut v, mut big, off, n) = in_words(ctx);
    audit_part(ctx, &v, &big, off, n, "at first")?;
    for step in 0..ctx.scale(40, 10) {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        let how = ctx.rng.below(WAYS);
        match ctx.rng.below(3) {
            0 => {
                let b = ctx.rng.bool();
                set_via(&mut v, how, i, b);
                big.set(off + i, b);
                ctx.ev("set", 1);
            }
            1 => {
                flip_via(&mut v, how, i);
                big.flip(off + i);
                ctx.ev("flip", 1);
            }
            _ => ctx.ev("get", 1),
        }
        // the last way goes to the words themselves
        let how = how % (WAYS - 1);
        ensure!(get_via(&v, how, i) == big.get(off + i), "step {step}: bit {i} of {n} reads {} via {how}", !big.get(off + i));
    }
    audit_part(ctx, &v, &big, off, n, "at the end")
}

fn part_oob(ctx: &mut Ctx) -> R {
    let (mut v, mut big, off, n) = in_words(ctx);
    for _ in 0..ctx.scale(16, 6) {
        // many of them lie in the words or in what the vector was created for
        let i = if ctx.rng.bool() { n + ctx.rng.below(300) } else { ctx.bad_index(n) };
        let how = ctx.rng.below(WAYS);
        let look = how % (WAYS - 1);
        ensure!(panics(|| get_via(&v, look, i)), "get({i}) via {look} of {n} bits did not panic");
        ctx.rejected("get");
        let b = ctx.rng.bool();
        ensure!(panics(|| set_via(&mut v, how, i, b)), "set({i}, {b}) via {how} of {n} bits did not panic");
        ctx.rejected("set");
        ensure!(panics(|| flip_via(&mut v, how, i)), "flip({i}) via {how} of {n} bits did not panic");
        ctx.rejected("flip");
    }
    audit_part(ctx, &v, &big, off, n, "after the rejected accesses")?;
    for i in n.saturating_sub(3)..n {
        let how = ctx.rng.below(WAYS);
        let b = ctx.rng.bool();
        no_panic(|| {
            get_via(&v, how % (WAYS - 1), i);
            set_via(&mut v, how, i, b);
            flip_via(&mut v, how, i);
        })
        .map_err(|e| format!("access to {i} of {n} bits rejected: {e}"))?;
        big.set(off + i, !b);
        ctx.ev("accepted", 3);
    }
    audit_part(ctx, &v, &big, off, n, "after the accepted accesses")
}

fn part_views(ctx: &mut Ctx) -> R {
    let (mut v, mut big, off, n) = in_words(ctx);
    for _ in 0..ctx.scale(4, 2) {
        let r = ctx.good_range(n);
        let (a, b) = r.resolve(n).unwrap();
        check_view(ctx, &v.slice(r), &big, off + a, off + b, &|| format!("slice({a}..{b}) of {n} bits at {off}"))?;
        write_view(ctx, &mut v.slice_mut(r), &mut big, off + a, b - a, 8)?;
        let r = ctx.bad_range(n);
        ensure!(panics(|| v.slice(r).len()), "slice({r:?}) of {n} bits did not panic");
        ensure!(panics(|| v.slice_mut(r).len()), "slice_mut({r:?}) of {n} bits did not panic");
        ctx.rejected("range");
    }
    audit_part(ctx, &v, &big, off, n, "after writing through views")
}

fn part_splits(ctx: &mut Ctx) -> R {
    let (mut v, mut big, off, n) = in_words(ctx);
    for _ in 0..ctx.scale(3, 2) {
        if n > 0 {
            let k = ctx.index(n);
            check_split(ctx, &mut v, &mut big, off, n, k)?;
        }
        let k = if ctx.rng.bool() { n + ctx.rng.below(300) } else { ctx.bad_index(n) };
        if k > n {
            ensure!(panics(|| v.split_at(k).0.len()), "split_at({k}) of {n} bits did not panic");
            ensure!(panics(|| v.split_at_mut(k).0.len()), "split_at_mut({k}) of {n} bits did not panic");
            ctx.rejected("split");
        }
    }
    audit_part(ctx, &v, &big, off, n, "after writing to the parts of splits")
}

fn part_iter(ctx: &mut Ctx) -> R {
    let (v, big, off, n) = in_words(ctx);
    let want: Vec<bool> = (off..off + n).map(|i| big.get(i)).collect();
    match ctx.rng.below(4) {
        0 => drive(ctx, v.iter(), &want, "iter of replaced content"),
        1 => drive(ctx, (&v).into_iter(), &want, "replaced content"),
        2 => consume(ctx, || (&v).into_iter(), &want, "replaced content"),
        _ => {
            let s: &BitSlice<Box<[usize]>> = v.as_ref();
            drive(ctx, s.into_iter(), &want, "view of replaced content")
        }
    }
}

fn part_eq(ctx: &mut Ctx) -> R {
    let (v, big, off, n) = in_words(ctx);
    let mut m = Bits::zeros(n);
    for i in 0..n {
        m.set(i, big.get(off + i));
    }
    let mut w = make(&m);
    expect_eq(ctx, &*v, &*w, true, &|| format!("{n} bits at {off} and the same bits"))?;
    let (mut x, at) = embed(ctx, &m);
    expect_eq(ctx, &*v, &x.slice(at..at + n), true, &|| format!("{n} bits at {off} and a view of the same bits"))?;
    if n > 0 {
        let i = ctx.index(n);
        w.flip(i);
        x.flip(at + i);
        expect_eq(ctx, &*v, &*w, false, &|| format!("{n} bits at {off} and others at {i}"))?;
        expect_eq(ctx, &*v, &x.slice(at..at + n), false, &|| format!("{n} bits at {off} and a view with another bit {i}"))?;
        expect_eq(ctx, &*v, &make(&m).slice(..n - 1), false, &|| format!("{n} bits at {off} and one bit less"))?;
    }
    Ok(())
}

fn part_unchecked(ctx: &mut Ctx) -> R {
    let (mut a, mut big, off, n) = in_words(ctx);
    for _ in 0..ctx.scale(40, 10) {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        let v = ctx.rng.bool();
        let op = ctx.rng.below(6);
        // SAFETY: i is in bounds
        unsafe {
            match op {
                0 => a.set_bit_unchecked(i, v),
                1 => a.set_unchecked(i, v),
                2 => a.flip_bit_unchecked(i),
                3 => a.flip_unchecked(i),
                4 => ensure!(a.get_unchecked(i) == big.get(off + i), "get_unchecked({i}) of {n} bits at {off} is {}", !big.get(off + i)),
                _ => ensure!(a.get_bit_unchecked(i) == big.get(off + i), "get_bit_unchecked({i}) of {n} bits at {off} is {}", !big.get(off + i)),
            }
        }
        match op {
            0 | 1 => big.set(off + i, v),
            2 | 3 => big.flip(off + i),
            _ => {}
        }
        ctx.ev("unchecked access", 1);
    }
    audit_part(ctx, &a, &big, off, n, "after unchecked accesses")
}

fn part_clones(ctx: &mut Ctx) -> R {
    let (mut v, mut big, off, n) = in_words(ctx);
    let before = big.clone();
    let mut c = v.clone();
    let mut mc = big.clone();
    let want = {
        let mut s = String::from("{");
        for i in 0..n {
            s.push_str(if i > 0 { ", " } else { "" });
            s.push(if big.get(off + i) { '1' } else { '0' });
        }
        s + "}"
    };
    ensure!(format!("{v:?}") == want && format!("{c:?}") == want, "the text of {n} bits at {off} is {v:?}, of their copy {c:?}");
    ctx.ev("text", 2);
    for _ in 0..ctx.scale(16, 6) {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        if ctx.rng.bool() {
            v.flip(i);
            big.flip(off + i);
        } else {
            c.flip(i);
            mc.flip(off + i);
        }
        ctx.ev("modification", 1);
    }
    check_view(ctx, &*v, &big, off, off + n, &|| "the source of a copy".into())?;
    check_view(ctx, &*c, &mc, off, off + n, &|| "a copy".into())?;
    c = BitVec::new(3);
    v.clone_from(&c);
    ensure!(v.len() == 3 && !v.get(0) && c.len() == 3, "clone_from over {} bits", before.n);
    ctx.ev("copy", 2);
    Ok(())
}
