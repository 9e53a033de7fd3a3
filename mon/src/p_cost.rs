//! Monitors for the cost of queries, counted in executed instructions.
//!
//! The instructions are counted by single-stepping the query: the trap flag is set around it and
//! a signal handler counts the traps. The count is exact and does not depend on the load.

use crate::core::*;
use crate::p_bits::make_bulk;
use crate::p_rank::Ref;
use crate::Family;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Once;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C19", "rank", 80, 800, 0, rank_cost),
        Family::new("C19", "select_dense", 80, 800, 0, select_dense),
        Family::new("C19", "select_sparse", 80, 800, 0, select_sparse),
        Family::new("C19", "growth", 20, 60, 0, growth).fixed(),
        Family::new("C19", "far_ones", 6, 12, 0, far_ones).fixed(),
        Family::new("C19", "growth_huge", 1, 2, 0, growth_huge).heavy(),
    ]
}

static STEPS: AtomicU64 = AtomicU64::new(0);
/// the count at which stepping is given up
static LAST: AtomicU64 = AtomicU64::new(u64::MAX);
static INSTALL: Once = Once::new();

extern "C" fn on_trap(_sig: i32, _info: *const u8, context: *mut u8) {
    if STEPS.fetch_add(1, Relaxed) >= LAST.load(Relaxed) {
        // the flags of the interrupted code: the rest runs without steps
        unsafe { *(context.add(40 + 17 * 8) as *mut u64) &= !0x100 };
    }
}

fn install() {
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    }
    INSTALL.call_once(|| {
        const SIGINFO: i32 = 4;
        let a = Action { handler: on_trap as *const () as usize, mask: [0; 16], flags: SIGINFO, restorer: 0 };
        assert!(unsafe { sigaction(5, &a, std::ptr::null_mut()) } == 0);
    });
}

#[inline(never)]
fn stepped<T>(f: &mut dyn FnMut() -> T, most: u64) -> (T, u64) {
    install();
    let before = STEPS.load(Relaxed);
    LAST.store(before.saturating_add(most), Relaxed);
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let t = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    (t, STEPS.load(Relaxed) - before)
}

/// Instructions of one call of `f`. The first call pays for lazy binding, so count the second.
pub fn cost<T>(f: impl FnMut() -> T) -> (T, u64) {
    cost_up_to(u64::MAX, f)
}

/// The same, but stops counting above `most`.
pub fn cost_up_to<T>(most: u64, mut f: impl FnMut() -> T) -> (T, u64) {
    f();
    stepped(&mut f, most)
}

// Generous: the current code needs below 150 instructions for a rank, and below 300 for a select
// in dense data. Any constant would do, so these limits leave room for looking at the bits of a
// block one by one; what grows with the length is seen by comparing lengths (`growth`).
const RANK_LIMIT: u64 = 60_000;
const SELECT_LIMIT: u64 = 60_000;
/// per index block between two samples
const PER_BLOCK: u64 = 600;

fn bits_for(ctx: &mut Ctx, max_exp: usize) -> Bits {
    let e = ctx.rng.incl(12, max_exp);
    let n = (1usize << e) + ctx.rng.below(1 << e);
    let kind = ctx.rng.below(Bits::KINDS);
    Bits::pattern(kind, n, &mut ctx.rng)
}

fn rank_cost(ctx: &mut Ctx) -> R {
    let m = bits_for(ctx, 22);
    let n = m.n;
    let v = make_bulk(&m);
    let f = FlatPopcount::<()>::new(&v);
    ctx.desc(|| format!("instructions of rank in {n} bits"));
    ctx.distinct(m.hash());
    for q in 0..40 {
        let i = if q % 2 == 0 { ctx.rng.incl(0, n) } else { n - ctx.rng.below(5000.min(n)) };
        let (_, c) = cost(|| f.rank::<true>(std::hint::black_box(i)));
        ensure!(c <= RANK_LIMIT, "rank at {i} of {n} bits executes {c} instructions, more than {RANK_LIMIT}");
        let (_, c0) = cost(|| f.rank::<false>(std::hint::black_box(i)));
        ensure!(c0 <= RANK_LIMIT, "rank of zeros at {i} of {n} bits executes {c0} instructions");
        ensure!(c > 3, "counting instructions does not work: {c}");
        ctx.note_max("instructions of the most expensive rank", c.max(c0));
        ctx.ev("counted rank", 2);
    }
    Ok(())
}

fn select_case<S: SelectStrategy>(ctx: &mut Ctx, v: &BitVec, r: &Ref, what: &str) -> R {
    let f = FlatPopcount::<S>::new(v);
    let ones = r.pos.len();
    for q in 0..40 {
        if ones == 0 {
            break;
        }
        let k = match q % 4 {
            0 => ones - 1 - ctx.rng.below(ones.min(3000)),
            1 => (ctx.rng.incl(0, ones / 8192) * 8192 + 8191).min(ones - 1),
            _ => ctx.rng.below(ones),
        };
        // the samples around the one that is looked for
        let from = r.pos[k / 8192 * 8192];
        let to = r.pos[k];
        let blocks = ((to - from) / 4096 + 2) as u64;
        let limit = SELECT_LIMIT + PER_BLOCK * blocks;
        let (g, c) = cost(|| f.select(std::hint::black_box(k)));
        ensure!(g == Some(to), "{what}: select({k}) is {g:?} instead of {to}");
        ensure!(c <= limit, "{what}: select({k}) of {ones} ones in {} bits executes {c} instructions, more than {limit} for {blocks} blocks between the samples", r.n);
        ctx.note_max(if blocks < 16 { "instructions of the most expensive select in dense data" } else { "instructions of the most expensive select in sparse data" }, c);
        ctx.ev("counted select", 1);
    }
    let (g, c) = cost(|| f.select(std::hint::black_box(ones)));
    ensure!(g.is_none() && c <= SELECT_LIMIT, "{what}: select({ones}) of {ones} ones gives {g:?} after {c} instructions");
    Ok(())
}

fn select_dense(ctx: &mut Ctx) -> R {
    let e = ctx.rng.incl(13, 22);
    let n = (1usize << e) + ctx.rng.below(1 << e);
    let kind = *ctx.rng.pick(&[1usize, 2, 4, 6, 9]);
    let m = Bits::pattern(kind, n, &mut ctx.rng);
    ctx.desc(|| format!("instructions of select in {n} bits of pattern {kind}"));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    if ctx.rng.bool() {
        select_case::<LinearSearch>(ctx, &v, &r, "linear")
    } else {
        select_case::<BinarySearch>(ctx, &v, &r, "binary")
    }
}

fn select_sparse(ctx: &mut Ctx) -> R {
    let m = bits_for(ctx, 22);
    ctx.desc(|| format!("instructions of select in {} bits", m.n));
    ctx.distinct(m.hash());
    let v = make_bulk(&m);
    let r = Ref::new(&m);
    if ctx.rng.bool() {
        select_case::<LinearSearch>(ctx, &v, &r, "linear")
    } else {
        select_case::<BinarySearch>(ctx, &v, &r, "binary")
    }
}

/// Most expensive queries of several kinds.
fn worst<S: SelectStrategy>(ctx: &mut Ctx, v: &BitVec, ones: usize, queries: usize) -> [u64; KINDS.len()] {
    let n = v.len();
    let f = FlatPopcount::<S>::new(v);
    let mut w = [0; KINDS.len()];
    let mut put = |k: usize, c: u64| w[k] = w[k].max(c);
    for q in 0..queries {
        let i = match q % 6 {
            0 => n - ctx.rng.below(600),
            1 => ctx.rng.below(600),
            2 => ctx.rng.below(n / 4096) * 4096,
            3 => ctx.rng.below(n / 512) * 512 + 511,
            4 => (ctx.rng.below(n / 8192) * 8192 + ctx.rng.below(3)).saturating_sub(1),
            _ => ctx.rng.below(n),
        };
        put(0, cost(|| f.rank::<true>(std::hint::black_box(i))).1);
        put(1, cost(|| f.rank::<false>(std::hint::black_box(i))).1);
        put(2, cost(|| f.rank_dyn(std::hint::black_box(i), q & 1 == 0)).1);
        if ones > 0 {
            let k = match q % 5 {
                0 => ones - 1 - ctx.rng.below(ones.min(600)),
                1 => ctx.rng.below(ones.min(600)),
                2 => ctx.rng.below(ones / 8192 + 1) * 8192,
                3 => ctx.rng.below(ones / 8192 + 1) * 8192 + 8191,
                _ => ctx.rng.below(ones),
            };
            if k < ones {
                put(3, cost(|| f.select(std::hint::black_box(k))).1);
            }
        }
        put(4, cost(|| f.select(std::hint::black_box(ones + q * q))).1);
    }
    put(4, cost(|| f.select(std::hint::black_box(usize::MAX))).1);
    put(0, cost(|| f.rank::<true>(std::hint::black_box(n))).1);
    put(1, cost(|| f.rank::<false>(std::hint::black_box(n))).1);
    ctx.ev("counted query", 5 * queries as u64);
    w
}

const KINDS: [&str; 5] = ["rank of ones", "rank of zeros", "rank_dyn", "select", "select that finds nothing"];

/// Ones with a fixed distance.
fn spread(n: usize, step: usize, ones: &mut usize) -> BitVec {
    let mut m = Bits::zeros(n);
    *ones = 0;
    for i in (0..n).step_by(step) {
        m.set(i, true);
        *ones += 1;
    }
    make_bulk(&m)
}

fn grown(w: [u64; KINDS.len()], small: [u64; KINDS.len()], n: usize, m: usize, select: bool) -> R {
    for (k, what) in KINDS.iter().enumerate() {
        if k == 3 && !select {
            continue;
        }
        ensure!(w[k] <= 3 * small[k] + 300, "{what}: up to {} instructions in {m} bits but {} in {n} bits", small[k], w[k]);
    }
    Ok(())
}

/// The cost in a large vector against the cost in a small one.
fn growth(ctx: &mut Ctx) -> R {
    let kind = ctx.idx % Bits::KINDS;
    ctx.desc(|| format!("growth of the instructions per query for pattern {kind}"));
    ctx.distinct(ctx.idx as u64);
    // where ones are dense, select is compared as well
    let dense = [1usize, 2, 3, 4, 6, 9].contains(&kind);
    let mut small = [0; KINDS.len()];
    for (j, n) in [40_000usize, 700_000, 12_000_000].into_iter().enumerate() {
        let m = Bits::pattern(kind, n, &mut ctx.rng);
        let v = make_bulk(&m);
        let ones = m.w.iter().map(|x| x.count_ones() as usize).sum();
        let w = if ctx.rng.bool() || (dense && ctx.idx < Bits::KINDS) {
            worst::<LinearSearch>(ctx, &v, ones, 150)
        } else {
            worst::<BinarySearch>(ctx, &v, ones, 150)
        };
        if j == 0 {
            // the strategies may differ among each other
            let l = worst::<LinearSearch>(ctx, &v, ones, 300);
            let b = worst::<BinarySearch>(ctx, &v, ones, 300);
            for k in 0..KINDS.len() {
                small[k] = w[k].max(l[k]).max(b[k]);
            }
        } else {
            grown(w, small, n, 40_000, dense)?;
        }
    }
    Ok(())
}

/// The cost of select where ones are far apart, against the distance to the last sampled one.
fn far_ones(ctx: &mut Ctx) -> R {
    // one block between the ones, measured where the distances are short
    let step = [700usize, 4096, 5000, 60_000, 1_000_000, 3_000_000][ctx.idx % 6];
    ctx.desc(|| format!("instructions of select for ones with distance {step}"));
    ctx.distinct(ctx.idx as u64);
    let mut ones = 0;
    let v = spread(400_000, 100_000, &mut ones);
    let f = FlatPopcount::<LinearSearch>::new(&v);
    let base = cost(|| f.select(std::hint::black_box(0))).1;
    let far = cost(|| f.select(std::hint::black_box(ones - 1))).1;
    let per = far.saturating_sub(base) / (300_000 / 4096) + 1;
    let v = spread(20_000_000, step, &mut ones);
    let f = FlatPopcount::<LinearSearch>::new(&v);
    for q in 0..60 {
        let k = if q % 3 == 0 { ones - 1 - ctx.rng.below(ones.min(5)) } else { ctx.rng.below(ones) };
        let blocks = ((k % 8192 * step) / 4096 + 2) as u64;
        let limit = 3 * base + 600 + 3 * per * blocks;
        let c = cost(|| f.select(std::hint::black_box(k))).1;
        ensure!(c <= limit, "select({k}) of ones with distance {step} executes {c} instructions, more than {limit} for {blocks} blocks after the sampled one");
        ctx.ev("counted query", 1);
    }
    Ok(())
}

/// The cost in a vector of 2^30 bits.
fn growth_huge(ctx: &mut Ctx) -> R {
    let n = (1usize << 30) + 12345;
    let step = [3usize, 1][ctx.idx % 2];
    ctx.desc(|| format!("instructions per query in {n} bits"));
    ctx.distinct(ctx.idx as u64);
    let mut ones = 0;
    let v = spread(40_000, step, &mut ones);
    let small = worst::<LinearSearch>(ctx, &v, ones, 300);
    let v = spread(n, step, &mut ones);
    let w = worst::<LinearSearch>(ctx, &v, ones, 300);
    grown(w, small, n, 40_000, true)
}
