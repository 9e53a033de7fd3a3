//! Monitors for vectors of integers with a fixed bit width.

use crate::core::*;
use crate::p_bits::{consume, drive};
use crate::Family;
use succinct_neo::int_vec::{IntAccess, IntVec};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C10", "every_width", 64 * 4, 64 * 12, 8, every_width).fixed(),
        Family::new("C10", "history", 24_000, 400_000, 8, history),
        Family::new("C10", "long_history", 160, 3_000, 0, long_history),
        Family::new("C10", "grown", 32, 400, 0, grown).fixed(),
        Family::new("C10", "huge", 2, 4, 0, huge).heavy(),
        Family::new("C11", "widths", 200, 400, 8, bad_widths).fixed(),
        Family::new("C11", "values", 16_000, 300_000, 8, bad_values),
        Family::new("C11", "indices", 16_000, 300_000, 8, bad_indices),
        Family::new("C11", "values_long", 16, 200, 0, bad_values).wide(),
        Family::new("C11", "indices_long", 16, 200, 0, bad_indices).wide(),
        Family::new("C11", "huge", 1, 2, 0, bad_huge).heavy(),
        Family::new("C12", "every_width", 64 * 4, 64 * 12, 8, layout_every_width).fixed(),
        Family::new("C12", "history", 16_000, 300_000, 8, layout_history),
        Family::new("C12", "history_long", 16, 200, 0, layout_history).wide(),
        Family::new("C12", "grown", 32, 400, 0, layout_grown).fixed(),
        Family::new("C12", "huge", 1, 2, 0, layout_huge).heavy(),
        Family::new("C13", "every_width", 64 * 6, 64 * 20, 8, iter_every_width).fixed(),
        Family::new("C13", "random", 12_000, 200_000, 8, iter_random),
        Family::new("C13", "long", 16, 200, 0, iter_random).wide(),
        Family::new("C13", "huge", 1, 2, 0, iter_huge).heavy(),
    ]
}

pub fn max_of(w: usize) -> usize {
    usize::MAX >> (64 - w)
}

fn up_to(ctx: &mut Ctx, full: usize, small: usize) -> usize {
    let max = ctx.scale(full, small);
    let max = ctx.roomy(max);
    ctx.len(max)
}

/// A value that fits into `w` bits.
pub fn value(ctx: &mut Ctx, w: usize) -> usize {
    let max = max_of(w);
    match ctx.rng.below(8) {
        0 => 0,
        1 => max,
        2 => max - max.min(1),
        3 => 1 << ctx.rng.below(w),
        4 => max ^ (1 << ctx.rng.below(w)),
        5 => ctx.mined(max),
        _ => ctx.rng.u64() as usize & max,
    }
}

/// A value that does not fit into `w` bits (w < 64).
fn bad_value(ctx: &mut Ctx, w: usize) -> usize {
    let max = max_of(w);
    match ctx.rng.below(6) {
        0 | 1 => max + 1,
        2 => usize::MAX,
        3 => 1 << ctx.rng.incl(w, 63),
        4 => (ctx.rng.u64() as usize) | 1 << ctx.rng.incl(w, 63),
        _ => (max << 1) | 1,
    }
}

pub fn fresh(ctx: &mut Ctx, w: usize) -> IntVec {
    match ctx.rng.below(5) {
        0 | 1 => IntVec::new(w),
        2 => IntVec::with_capacity(w, 0),
        _ => {
            let c = ctx.len(200);
            IntVec::with_capacity(w, c)
        }
    }
}

fn audit(ctx: &mut Ctx, v: &IntVec, m: &[usize], w: usize, when: &str) -> R {
    ctx.stats.audits += 1;
    ensure!(v.iter().len() == m.len(), "{when}: a vector of {}-bit integers has {} instead of {} elements", w, v.iter().len(), m.len());
    ensure!(v.is_empty() == m.is_empty(), "{when}: is_empty is {} for {} elements", v.is_empty(), m.len());
    for (i, e) in m.iter().enumerate() {
        let g = v.get(i);
        ensure!(g == *e, "{when}: element {i} of {} with width {w} is {g:#x} instead of {e:#x}", m.len());
    }
    ctx.ev("audited element", m.len() as u64);
    Ok(())
}

fn every_width(ctx: &mut Ctx) -> R {
    let w = if ctx.small { [1, 7, 8, 31, 33, 63, 64, 40][ctx.idx % 8] } else { ctx.idx % 64 + 1 };
    let variant = ctx.idx / 64 % 4;
    let n = ctx.scale(200, 24);
    ctx.desc(|| format!("width {w}: {n} elements, set each of them in turn (fill {variant})"));
    ctx.distinct((w * 64 + ctx.idx / 64) as u64);
    let mut v = fresh(ctx, w);
    let mut m = Vec::new();
    audit(ctx, &v, &m, w, "fresh")?;
    for i in 0..n {
        let x = match variant {
            0 => max_of(w),
            1 => 0,
            2 => i & max_of(w),
            _ => value(ctx, w),
        };
        v.push(x);
        m.push(x);
        if i < 70 || i % 8 == 0 {
            audit(ctx, &v, &m, w, &format!("after push {i}"))?;
        }
    }
    ctx.ev("push", n as u64);
    for i in 0..n {
        for x in [!m[i] & max_of(w), value(ctx, w)] {
            v.set(i, x);
            m[i] = x;
            audit(ctx, &v, &m, w, &format!("after set({i}, {x:#x})"))?;
        }
    }
    ctx.ev("set", 2 * n as u64);
    // pushing continues correctly after overwriting
    for _ in 0..70 {
        let x = value(ctx, w);
        v.push(x);
        m.push(x);
    }
    audit(ctx, &v, &m, w, "after pushing more")
}

fn history(ctx: &mut Ctx) -> R {
    let steps = ctx.scale(300, 40);
    run_history(ctx, steps)
}

fn long_history(ctx: &mut Ctx) -> R {
    run_history(ctx, 12_000)
}

fn run_history(ctx: &mut Ctx, steps: usize) -> R {
    let k = ctx.rng.incl(1, 3);
    let ws: Vec<usize> = (0..k).map(|_| ctx.rng.incl(1, 64)).collect();
    let mut vs: Vec<(IntVec, Vec<usize>)> = ws.iter().map(|w| (fresh(ctx, *w), Vec::new())).collect();
    ctx.desc(|| format!("widths {ws:?}, {steps} operations"));
    let push_rate = ctx.rng.incl(2, 8);
    let mut h = 1;
    for step in 0..steps {
        let which = ctx.rng.below(k);
        let w = ws[which];
        let n = vs[which].1.len();
        if n == 0 || ctx.rng.below(10) < push_rate {
            let x = value(ctx, w);
            ctx.op(|| format!("{which}: push({x:#x})"));
            let (v, m) = &mut vs[which];
            v.push(x);
            m.push(x);
            h = mix(h, x as u64);
            ctx.ev("push", 1);
            let g = v.get(n);
            ensure!(g == x, "step {step}: width {w}: pushed {x:#x} as element {n} reads {g:#x}");
        } else if ctx.rng.bool() {
            let i = ctx.index(n);
            let x = value(ctx, w);
            ctx.op(|| format!("{which}: set({i}, {x:#x})"));
            let (v, m) = &mut vs[which];
            v.set(i, x);
            m[i] = x;
            h = mix(h, mix(i as u64, x as u64));
            ctx.ev("set", 1);
            for j in [i.wrapping_sub(1), i, i + 1] {
                if j < n {
                    ensure!(v.get(j) == m[j], "step {step}: width {w}: after set({i}, {x:#x}) element {j} of {n} reads {:#x} instead of {:#x}", v.get(j), m[j]);
                }
            }
        } else {
            let i = ctx.index(n);
            let (v, m) = &vs[which];
            ensure!(v.get(i) == m[i], "step {step}: width {w}: element {i} of {n} reads {:#x} instead of {:#x}", v.get(i), m[i]);
            ctx.ev("get", 1);
        }
        if ctx.rng.chance(1, 1 + steps / 8) {
            let (v, m) = &vs[which];
            audit(ctx, v, m, w, &format!("step {step}"))?;
        }
    }
    ctx.distinct(h);
    for (i, (v, m)) in vs.iter().enumerate() {
        audit(ctx, v, m, ws[i], "at the end")?;
    }
    Ok(())
}

/// The elements of huge vectors.
fn element(i: usize, w: usize) -> usize {
    (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 7) & max_of(w)
}

/// Pushes elements until there are many more than any capacity that was asked for.
fn grow(ctx: &mut Ctx) -> (IntVec, Vec<usize>, usize) {
    let w = if ctx.idx % 4 == 3 { [64, 32, 63, 1][ctx.idx / 4 % 4] } else { ctx.rng.incl(1, 64) };
    let bits = 1usize << ctx.rng.incl(18, 24);
    let n = (bits + ctx.rng.below(bits)) / w;
    let sparse = ctx.rng.chance(1, 3);
    let mut v = fresh(ctx, w);
    let mut m = Vec::with_capacity(n);
    for i in 0..n {
        let x = if sparse && i % 7 != 0 { 0 } else { element(i, w) };
        v.push(x);
        m.push(x);
    }
    ctx.desc(|| format!("width {w}: {n} elements in storage that grew"));
    ctx.distinct(mix(w as u64, n as u64));
    ctx.ev("push", n as u64);
    (v, m, w)
}

fn grown(ctx: &mut Ctx) -> R {
    let (mut v, mut m, w) = grow(ctx);
    audit(ctx, &v, &m, w, "after growing")?;
    for _ in 0..2000 {
        let i = ctx.index(m.len());
        let x = value(ctx, w);
        v.set(i, x);
        m[i] = x;
    }
    for _ in 0..m.len() / 2 {
        let x = value(ctx, w);
        v.push(x);
        m.push(x);
    }
    audit(ctx, &v, &m, w, "after setting some and growing further")
}

fn layout_grown(ctx: &mut Ctx) -> R {
    let (mut v, mut m, w) = grow(ctx);
    check_layout(ctx, &v, &m, w, "after growing")?;
    for _ in 0..2000 {
        let i = ctx.index(m.len());
        let x = value(ctx, w);
        v.set(i, x);
        m[i] = x;
    }
    check_layout(ctx, &v, &m, w, "after setting some")
}

/// More than 2^32 bits.
fn huge_ints(ctx: &mut Ctx, w: usize) -> (IntVec, usize) {
    let n = (1usize << 32) / w + 5000;
    ctx.desc(|| format!("width {w}: {n} elements, {} bits", n * w));
    ctx.distinct(w as u64);
    let mut v = IntVec::with_capacity(w, n + 10);
    for i in 0..n {
        v.push(element(i, w));
    }
    (v, n)
}

fn huge(ctx: &mut Ctx) -> R {
    let w = [33, 64, 7, 48][ctx.idx % 4];
    let f = |i: usize| element(i, w);
    let (mut v, n) = huge_ints(ctx, w);
    ensure!(v.iter().len() == n, "length is {} instead of {n}", v.iter().len());
    for (i, x) in v.iter().enumerate() {
        ensure!(x == f(i), "width {w}: element {i} of {n} is {x:#x} instead of {:#x}", f(i));
    }
    ctx.ev("audited element", n as u64);
    let border = (1usize << 32) / w;
    for k in 0..4000 {
        let i = if k < 3000 { border - 1500 + k } else { ctx.rng.below(n) };
        let x = !f(i) & max_of(w);
        v.set(i, x);
        ensure!(v.get(i) == x, "width {w}: element {i} of {n} is {:#x} after set({x:#x})", v.get(i));
        for j in [i - 1, i + 1, i ^ (1 << 26)] {
            if j < n {
                // neighbours may have been overwritten before
                let g = v.get(j);
                ensure!(g == f(j) || g == !f(j) & max_of(w), "width {w}: element {j} is {g:#x} after set({i})");
            }
        }
    }
    ctx.ev("set", 4000);
    Ok(())
}

// ---------------------------------------------------------------- C11

fn bad_widths(ctx: &mut Ctx) -> R {
    let w = match ctx.idx {
        i if i < 130 => i,
        _ => ctx.bad_index(65),
    };
    ctx.desc(|| format!("width {w}"));
    ctx.distinct(w as u64);
    let ok = (1..=64).contains(&w);
    let a = outcome(|| IntVec::new(w));
    ensure!(a.is_some() == ok, "IntVec::new({w}) {}", if ok { "panicked" } else { "was accepted" });
    let c = ctx.rng.below(20);
    let b = outcome(|| IntVec::with_capacity(w, c));
    ensure!(b.is_some() == ok, "IntVec::with_capacity({w}, {c}) {}", if ok { "panicked" } else { "was accepted" });
    if ok {
        for mut v in [a.unwrap(), b.unwrap()] {
            ensure!(v.is_empty() && v.iter().len() == 0, "width {w}: a new vector is not empty");
            let m = max_of(w);
            ensure!(outcome(|| v.push(m)).is_some(), "width {w}: the largest value {m:#x} was rejected");
            ensure!(v.get(0) == m, "width {w}: the largest value reads {:#x}", v.get(0));
            ensure!(outcome(|| v.set(0, m)).is_some(), "width {w}: setting the largest value was rejected");
            ensure!(v.get(0) == m, "width {w}: the largest value reads {:#x} after set", v.get(0));
            if w < 64 {
                ensure!(panics(|| v.push(m + 1)), "width {w}: pushing {:#x} was accepted", m + 1);
                ensure!(panics(|| v.set(0, m + 1)), "width {w}: setting {:#x} was accepted", m + 1);
                ctx.stats.rejections += 2;
            }
            ctx.ev("border value", 4);
        }
    } else {
        ctx.stats.rejections += 2;
        ctx.ev("bad width", 2);
    }
    Ok(())
}

fn fill(ctx: &mut Ctx, w: usize, n: usize) -> (IntVec, Vec<usize>) {
    let mut v = fresh(ctx, w);
    let mut m = Vec::new();
    for _ in 0..n {
        let x = value(ctx, w);
        v.push(x);
        m.push(x);
    }
    (v, m)
}

fn bad_values(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 63);
    let n = up_to(ctx, 150, 20);
    let (mut v, mut m) = fill(ctx, w, n);
    ctx.desc(|| format!("width {w}, {n} elements: values that do not fit"));
    ctx.distinct(m.iter().fold(w as u64, |h, x| mix(h, *x as u64)));
    for _ in 0..ctx.scale(8, 4) {
        let raw = v.raw_data().to_vec();
        let x = bad_value(ctx, w);
        ensure!(panics(|| v.push(x)), "width {w}: push({x:#x}) was accepted");
        ensure!(v.raw_data() == raw, "width {w}: the rejected push({x:#x}) changed the words");
        ctx.rejected("push");
        if !m.is_empty() {
            let i = ctx.index(m.len());
            ensure!(panics(|| v.set(i, x)), "width {w}: set({i}, {x:#x}) was accepted");
            ensure!(v.raw_data() == raw, "width {w}: the rejected set({i}, {x:#x}) changed the words");
            ctx.rejected("set");
        }
        ensure!(v.iter().len() == m.len(), "width {w}: the rejected push({x:#x}) changed the length");
        // go on with a good value
        let x = value(ctx, w);
        no_panic(|| v.push(x)).map_err(|e| format!("width {w}: push({x:#x}) rejected: {e}"))?;
        m.push(x);
    }
    audit(ctx, &v, &m, w, "after the rejected values")
}

fn bad_indices(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 64);
    let n = up_to(ctx, 150, 20);
    let (mut v, mut m) = fill(ctx, w, n);
    ctx.desc(|| format!("width {w}, {n} elements: indices out of range"));
    ctx.distinct(m.iter().fold(w as u64, |h, x| mix(h, *x as u64)));
    for _ in 0..ctx.scale(8, 4) {
        let raw = v.raw_data().to_vec();
        let i = match ctx.rng.below(4) {
            // the next element would still fit into the words
            0 => m.len() + ctx.rng.below(64 / w + 1),
            _ => ctx.bad_index(m.len()),
        };
        let x = value(ctx, w);
        ensure!(panics(|| v.get(i)), "width {w}: get({i}) of {} elements did not panic", m.len());
        ensure!(panics(|| v.set(i, x)), "width {w}: set({i}) of {} elements did not panic", m.len());
        ensure!(v.raw_data() == raw && v.iter().len() == m.len(), "width {w}: the rejected access to {i} of {} elements had an effect", m.len());
        ctx.rejected("get");
        ctx.rejected("set");
        if ctx.rng.bool() {
            v.push(x);
            m.push(x);
        }
        if !m.is_empty() {
            let l = m.len() - 1;
            let y = value(ctx, w);
            no_panic(|| v.set(l, y)).map_err(|e| format!("width {w}: set({l}) of {} elements rejected: {e}", m.len()))?;
            m[l] = y;
        }
    }
    audit(ctx, &v, &m, w, "after the rejected indices")
}

fn bad_huge(ctx: &mut Ctx) -> R {
    let w = [40, 61][ctx.idx % 2];
    let (mut v, n) = huge_ints(ctx, w);
    let words = v.raw_data().to_vec();
    for i in [n, n + 1, n + 63, 2 * n, 1 << 32, (1 << 32) + 5, (1 << 32) + n, (1 << 58) + 5, usize::MAX / w + 7, usize::MAX] {
        ensure!(panics(|| v.get(i)), "width {w}: get({i}) of {n} elements did not panic");
        ensure!(panics(|| v.set(i, 1)), "width {w}: set({i}) of {n} elements did not panic");
        ctx.rejected("get");
        ctx.rejected("set");
    }
    for x in [max_of(w) + 1, usize::MAX, 1 << 63] {
        for i in [0, 5, n / 2, n - 1] {
            ensure!(panics(|| v.set(i, x)), "width {w}: set({i}, {x:#x}) of {n} elements was accepted");
            ctx.rejected("set");
        }
        ensure!(panics(|| v.push(x)), "width {w}: push({x:#x}) to {n} elements was accepted");
        ctx.rejected("push");
    }
    ensure!(v.raw_data() == words && v.iter().len() == n, "width {w}: rejected calls changed {n} elements");
    v.push(3);
    ensure!(v.get(n) == 3 && v.get(n - 1) == element(n - 1, w), "width {w}: pushing to {n} elements after rejected calls");
    Ok(())
}

// ---------------------------------------------------------------- C12

fn layout_huge(ctx: &mut Ctx) -> R {
    let w = [36, 59][ctx.idx % 2];
    let (mut v, n) = huge_ints(ctx, w);
    let bits = n * w;
    for round in 0..2 {
        let raw = v.raw_data();
        ensure!(raw.len() >= bits.div_ceil(64) && raw.len() <= bits / 64 + 1, "{n} integers of {w} bits use {} words", raw.len());
        // the words from the elements, one after the other
        let (mut k, mut have, mut acc) = (0usize, 0usize, 0u128);
        for i in 0..n {
            let x = if round == 1 && i % 1_000_000 == 7 { max_of(w) } else { element(i, w) };
            acc |= (x as u128) << have;
            have += w;
            if have >= 64 {
                ensure!(raw[k] == acc as usize, "round {round}: word {k} of {n} integers of {w} bits is {:#x} instead of {:#x}", raw[k], acc as usize);
                acc >>= 64;
                have -= 64;
                k += 1;
            }
        }
        ensure!(raw[k..].iter().enumerate().all(|(j, x)| *x == if j == 0 { acc as usize } else { 0 }), "the last words of {n} integers of {w} bits");
        ctx.ev("checked word", raw.len() as u64);
        for i in (7..n).step_by(1_000_000) {
            v.set(i, max_of(w));
        }
    }
    Ok(())
}

fn check_layout(ctx: &mut Ctx, v: &IntVec, m: &[usize], w: usize, when: &str) -> R {
    ctx.stats.audits += 1;
    let raw = v.raw_data();
    let bits = m.len() * w;
    ensure!(raw.len() >= bits.div_ceil(64) && raw.len() <= bits / 64 + 1, "{when}: {} integers of {w} bits use {} words", m.len(), raw.len());
    let mut want = vec![0usize; raw.len()];
    for (i, x) in m.iter().enumerate() {
        let (b, o) = (i * w / 64, i * w % 64);
        want[b] |= x << o;
        if o + w > 64 {
            want[b + 1] |= x >> (64 - o);
        }
    }
    if let Some(k) = (0..raw.len()).find(|k| raw[*k] != want[*k]) {
        return Err(format!("{when}: word {k} of {} integers of {w} bits is {:#x} instead of {:#x}", m.len(), raw[k], want[k]));
    }
    ctx.ev("checked word", raw.len() as u64);
    Ok(())
}

fn layout_every_width(ctx: &mut Ctx) -> R {
    let w = if ctx.small { [1, 7, 8, 31, 33, 63, 64, 40][ctx.idx % 8] } else { ctx.idx % 64 + 1 };
    let variant = ctx.idx / 64 % 3;
    let n = ctx.scale(270, 24);
    ctx.desc(|| format!("words of {n} integers of {w} bits (fill {variant})"));
    ctx.distinct((w * 64 + ctx.idx / 64) as u64);
    let mut v = fresh(ctx, w);
    let mut m = Vec::new();
    check_layout(ctx, &v, &m, w, "fresh")?;
    for i in 0..n {
        let x = match variant {
            0 => max_of(w),
            1 => i & max_of(w),
            _ => value(ctx, w),
        };
        v.push(x);
        m.push(x);
        check_layout(ctx, &v, &m, w, &format!("after push {i}"))?;
    }
    for i in 0..n {
        let x = value(ctx, w);
        v.set(i, x);
        m[i] = x;
        check_layout(ctx, &v, &m, w, &format!("after set({i}, {x:#x})"))?;
    }
    Ok(())
}

fn layout_history(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 64);
    let mut v = fresh(ctx, w);
    let mut m: Vec<usize> = Vec::new();
    let steps = ctx.scale(200, 30);
    let steps = if ctx.wide || ctx.rng.chance(1, 40) { ctx.roomy(steps) } else { steps };
    ctx.desc(|| format!("words of integers of {w} bits, {steps} operations"));
    let mut h = w as u64;
    for step in 0..steps {
        if m.is_empty() || ctx.rng.chance(2, 3) {
            let x = value(ctx, w);
            v.push(x);
            m.push(x);
            h = mix(h, x as u64);
        } else {
            let i = ctx.index(m.len());
            let x = value(ctx, w);
            v.set(i, x);
            m[i] = x;
            h = mix(h, x as u64);
        }
        if step % (16 + step / 8) == 0 {
            check_layout(ctx, &v, &m, w, &format!("step {step}"))?;
        }
    }
    ctx.distinct(h);
    check_layout(ctx, &v, &m, w, "at the end")
}

// ---------------------------------------------------------------- C13

fn iter_case(ctx: &mut Ctx, w: usize, n: usize) -> R {
    let (v, m) = fill(ctx, w, n);
    ctx.distinct(m.iter().fold(mix(w as u64, n as u64), |h, x| mix(h, *x as u64)));
    drive(ctx, v.iter(), &m, "IntVec::iter")?;
    drive(ctx, (&v).into_iter(), &m, "&IntVec")?;
    consume(ctx, || v.iter(), &m, "IntVec::iter")?;
    consume(
        ctx,
        || {
            let mut c = IntVec::new(w);
            m.iter().for_each(|x| c.push(*x));
            c.into_iter()
        },
        &m,
        "IntVec::into_iter",
    )?;
    let (mut x, mut y) = (v.iter(), v.iter());
    let (mut i, mut j) = (0, 0);
    for _ in 0..20 {
        if ctx.rng.bool() {
            ensure!(x.next() == m.get(i).copied(), "interleaved iterator, item {i}");
            i += 1;
        } else {
            ensure!(y.next() == m.get(j).copied(), "interleaved iterator, item {j}");
            j += 1;
        }
    }
    audit(ctx, &v, &m, w, "after iterating")?;
    drive(ctx, v.into_iter(), &m, "IntVec::into_iter")
}

fn iter_every_width(ctx: &mut Ctx) -> R {
    let w = if ctx.small { [1, 7, 8, 31, 33, 63, 64, 40][ctx.idx % 8] } else { ctx.idx % 64 + 1 };
    let n = match ctx.idx / 64 {
        0 => 0,
        1 => 1,
        2 => 64 / w,
        3 => 64 / w + 1,
        4 => 64,
        _ => ctx.len(ctx.scale(300, 20)),
    };
    ctx.desc(|| format!("iterating {n} integers of {w} bits"));
    iter_case(ctx, w, n)
}

fn iter_random(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 64);
    let n = up_to(ctx, 400, 20);
    ctx.desc(|| format!("iterating {n} integers of {w} bits"));
    iter_case(ctx, w, n)
}

fn iter_huge(ctx: &mut Ctx) -> R {
    let w = [64, 5][ctx.idx % 2];
    let (v, n) = huge_ints(ctx, w);
    let mut it = v.iter();
    for i in 0..n {
        ensure!(it.len() == n - i, "width {w}: len() is {} after {i} of {n} elements", it.len());
        let g = it.next();
        ensure!(g == Some(element(i, w)), "width {w}: item {i} of {n} is {g:?}");
    }
    ensure!(it.next().is_none() && it.len() == 0, "width {w}: more than {n} items");
    let k = n - 100;
    let mut it = (&v).into_iter();
    ensure!(it.nth(k) == Some(element(k, w)) && it.len() == n - k - 1, "width {w}: nth({k}) of {n} elements");
    let mut it = v.into_iter();
    ensure!(it.nth(k) == Some(element(k, w)) && it.len() == n - k - 1, "width {w}: nth({k}) of {n} elements by value");
    ensure!(it.by_ref().count() == n - k - 1 && it.next().is_none(), "width {w}: the last of {n} elements by value");
    ctx.ev("item", 3 * n as u64);
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn unchecked_ints(ctx: &mut Ctx) -> R {
    let w = ctx.rng.incl(1, 64);
    let n = up_to(ctx, 200, 20);
    let (mut a, m) = fill(ctx, w, n);
    let mut b = IntVec::new(w);
    m.iter().for_each(|x| b.push(*x));
    ctx.desc(|| format!("unchecked accesses of {n} integers of {w} bits"));
    ctx.distinct(m.iter().fold(mix(w as u64, n as u64), |h, x| mix(h, *x as u64)));
    for _ in 0..ctx.scale(30, 10) {
        if n == 0 {
            break;
        }
        let i = ctx.index(n);
        let x = value(ctx, w);
        // SAFETY: i is in bounds and x fits
        unsafe {
            if ctx.rng.bool() {
                a.set_unchecked(i, x);
                b.set(i, x);
            }
            ensure!(a.get_unchecked(i) == b.get(i), "width {w}: unchecked access to {i} of {n} elements");
        }
        ctx.ev("unchecked access", 2);
    }
    for i in 0..n {
        // SAFETY: i is in bounds
        ensure!(unsafe { a.get_unchecked(i) } == b.get(i), "width {w}: get_unchecked({i}) of {n} elements");
    }
    ensure!(a.raw_data() == b.raw_data(), "width {w}: unchecked accesses have another effect");
    Ok(())
}
