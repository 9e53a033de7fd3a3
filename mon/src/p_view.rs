//! Monitors for views over a backing that records its calls: it has a bit at every position up to
//! the largest index, and fails when it is told to.

use crate::core::*;
use crate::Family;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use succinct_neo::bit_vec::slice::{BitSlice, Iter};
use succinct_neo::bit_vec::{BitAccess, BitGet, BitModify};

pub fn families() -> Vec<Family> {
    vec![
        Family::new("C25", "views", 6_000, 120_000, 20, views),
        Family::new("C25", "iterators", 4_000, 80_000, 16, iterators),
        Family::new("C25", "equality", 2_000, 40_000, 10, equality),
    ]
}

/// What the backing knows: the bits that were written (the others follow from the seed) and the
/// positions at which it was called.
struct Log {
    seed: u64,
    written: RefCell<BTreeMap<usize, bool>>,
    calls: RefCell<Vec<usize>>,
    /// calls until it fails, 0 for never
    fuse: Cell<u64>,
    blown: Cell<bool>,
}

impl Log {
    fn new(seed: u64) -> Rc<Self> {
        Rc::new(Log { seed, written: Default::default(), calls: Default::default(), fuse: Cell::new(0), blown: Cell::new(false) })
    }
    fn initial(&self, i: usize) -> bool {
        mix(self.seed, i as u64) >> 40 & 1 == 1
    }
    fn bit(&self, i: usize) -> bool {
        self.written.borrow().get(&i).copied().unwrap_or_else(|| self.initial(i))
    }
    fn put(&self, i: usize, v: bool) {
        self.written.borrow_mut().insert(i, v);
    }
    fn called(&self, i: usize) {
        self.calls.borrow_mut().push(i);
        let f = self.fuse.get();
        if f > 0 {
            self.fuse.set(f - 1);
            if f == 1 {
                self.blown.set(true);
                panic!("the backing failed");
            }
        }
    }
}

#[derive(Clone)]
struct Probe(Rc<Log>);

impl BitGet for Probe {
    unsafe fn get_bit_unchecked(&self, i: usize) -> bool {
        self.get_bit(i)
    }
    fn get_bit(&self, i: usize) -> bool {
        self.0.called(i);
        self.0.bit(i)
    }
}

impl BitModify for Probe {
    unsafe fn set_bit_unchecked(&mut self, i: usize, v: bool) {
        self.set_bit(i, v)
    }
    fn set_bit(&mut self, i: usize, v: bool) {
        self.0.called(i);
        self.0.put(i, v)
    }
    unsafe fn flip_bit_unchecked(&mut self, i: usize) {
        self.flip_bit(i)
    }
    fn flip_bit(&mut self, i: usize) {
        self.0.called(i);
        self.0.put(i, !self.0.bit(i))
    }
}

/// The log and what the written bits should be.
struct Watch {
    log: Rc<Log>,
    want: BTreeMap<usize, bool>,
}

impl Watch {
    fn new(seed: u64) -> Self {
        Watch { log: Log::new(seed), want: BTreeMap::new() }
    }
    fn bit(&self, i: usize) -> bool {
        self.want.get(&i).copied().unwrap_or_else(|| self.log.initial(i))
    }

    /// Runs one call that may touch the positions `from..to`. Gives nothing if the backing failed.
    fn call<T>(&self, ctx: &mut Ctx, what: &str, from: usize, to: usize, fuse: u64, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
        let l = &self.log;
        l.calls.borrow_mut().clear();
        l.blown.set(false);
        l.fuse.set(fuse);
        let r = outcome(f);
        l.fuse.set(0);
        let calls = l.calls.borrow();
        ctx.ev("calls of the backing", calls.len() as u64);
        for &c in calls.iter() {
            ensure!(from <= c && c < to, "{what} touches position {c} instead of {from}..{to}");
        }
        if l.blown.get() {
            ctx.ev("failing backing", 1);
            ensure!(r.is_none(), "{what}: the backing failed at its call {fuse} but the caller is not told");
        } else {
            ensure!(r.is_some(), "{what} panics");
        }
        Ok(r)
    }

    /// A call that has to panic without touching the backing.
    fn reject<T>(&self, ctx: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> R {
        self.log.calls.borrow_mut().clear();
        ensure!(outcome(f).is_none(), "{what} does not panic");
        ensure!(self.log.calls.borrow().is_empty(), "{what} touches position {}", self.log.calls.borrow()[0]);
        ctx.rejected("rejected call");
        Ok(())
    }

    /// The backing holds what was written and nothing else.
    fn same(&self, what: &str) -> R {
        let have = self.log.written.borrow();
        for i in have.keys().chain(self.want.keys()) {
            ensure!(self.log.bit(*i) == self.bit(*i), "after {what}: position {i} is {}", self.log.bit(*i));
        }
        Ok(())
    }
}

/// Start and end of a view, anywhere.
fn window(ctx: &mut Ctx, max_len: usize) -> (usize, usize) {
    let p = [0, 1 << 6, 1 << 9, 1 << 12, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 53, 1 << 62, 1 << 63, usize::MAX - 600];
    let start = match ctx.rng.below(6) {
        0 => 0,
        1 => ctx.rng.u64() as usize >> ctx.rng.below(64),
        2 => usize::MAX - ctx.rng.below(300),
        _ => *ctx.rng.pick(&p) + ctx.rng.below(500),
    };
    let room = usize::MAX - start;
    let len = match ctx.rng.below(5) {
        0 => room,
        1 => ctx.rng.u64() as usize >> ctx.rng.below(64),
        2 => *ctx.rng.pick(&p) | 1,
        3 => 64 * ctx.rng.incl(1, 9) - 1 + ctx.rng.below(3),
        _ => ctx.rng.below(200),
    };
    (start, start + len.min(room).min(max_len))
}

/// An index below `n > 0`.
fn inside(ctx: &mut Ctx, n: usize) -> usize {
    match ctx.rng.below(6) {
        0 => 0,
        1 => n - 1,
        2 => (1usize << ctx.rng.below(64)).min(n - 1),
        3 => ctx.rng.u64() as usize % n,
        _ => ctx.rng.below(n.min(130)),
    }
}

fn outside(ctx: &mut Ctx, n: usize) -> usize {
    match ctx.rng.below(4) {
        0 => n,
        1 => usize::MAX,
        2 => n.saturating_add(ctx.rng.below(70)),
        _ => (ctx.rng.u64() as usize).max(n),
    }
}

fn fuse(ctx: &mut Ctx) -> u64 {
    if ctx.rng.chance(1, 5) {
        1 + ctx.rng.below(3) as u64
    } else {
        0
    }
}

type Dyn<'a> = &'a mut (dyn BitAccess + 'a);

/// Some calls on a view whose bit `i` is the position `start + i`.
fn work(ctx: &mut Ctx, w: &mut Watch, s: &mut BitSlice<Dyn<'_>>, start: usize, depth: usize) -> R {
    let n = s.len();
    for _ in 0..ctx.scale(7, 3) {
        if ctx.rng.chance(1, 4) || n == 0 {
            let i = outside(ctx, n);
            match ctx.rng.below(7) {
                0 => w.reject(ctx, "get out of range", || s.get(i))?,
                1 => w.reject(ctx, "set out of range", || s.set(i, true))?,
                2 => w.reject(ctx, "flip out of range", || s.flip(i))?,
                3 => w.reject(ctx, "split_at out of range", || s.split_at(i).0.len())?,
                4 => w.reject(ctx, "split_at_mut out of range", || s.split_at_mut(i).0.len())?,
                5 => {
                    let r = ctx.bad_range(n);
                    w.reject(ctx, "slicing with an invalid range", || s.slice(r).len())?
                }
                _ if n > 1 => w.reject(ctx, "reversed slice", || s.slice_mut(n..n - 1).len())?,
                _ => {}
            }
            w.same("a rejected call")?;
            continue;
        }
        let i = inside(ctx, n);
        let p = start + i;
        let f = fuse(ctx);
        let v = ctx.rng.bool();
        ctx.ev("call", 1);
        match ctx.rng.below(11) {
            0 | 1 => {
                if let Some(g) = w.call(ctx, "get", p, p + 1, f, || s.get(i))? {
                    ensure!(!w.log.calls.borrow().is_empty(), "get does not reach the backing");
                    ensure!(g == w.bit(p), "get of position {p} is {g}");
                }
            }
            2 | 3 => {
                if w.call(ctx, "set", p, p + 1, f, || s.set(i, v))?.is_some() {
                    w.want.insert(p, v);
                } else {
                    w.want.insert(p, w.log.bit(p));
                }
                w.same("set")?;
            }
            4 => {
                let new = !w.bit(p);
                if w.call(ctx, "flip", p, p + 1, f, || s.flip(i))?.is_some() {
                    w.want.insert(p, new);
                } else {
                    w.want.insert(p, w.log.bit(p));
                }
                w.same("flip")?;
            }
            5 => {
                // SAFETY: the index is below the length, and the backing has every position
                if let Some(g) = w.call(ctx, "get_unchecked", p, p + 1, f, || unsafe { s.get_unchecked(i) })? {
                    ensure!(g == w.bit(p), "get_unchecked of position {p} is {g}");
                }
            }
            6 => {
                // SAFETY: as above
                let done = w.call(ctx, "set_unchecked", p, p + 1, f, || unsafe { s.set_unchecked(i, v) })?.is_some();
                w.want.insert(p, if done { v } else { w.log.bit(p) });
                w.same("set_unchecked")?;
            }
            7 if depth > 0 => {
                let j = i + ctx.rng.u64() as usize % (n - i) + 1;
                let r = Rg::spell(i, j, n, ctx.rng.below(9));
                let mut t = w.call(ctx, "slice_mut", 0, 0, 1, || s.slice_mut(r))?.unwrap();
                ensure!(t.len() == j - i, "slice_mut({r:?}) of {n} bits has {} bits", t.len());
                nested(ctx, w, &mut t, p, depth)?;
            }
            8 if depth > 0 => {
                let (mut a, mut b) = w.call(ctx, "split_at_mut", 0, 0, 1, || s.split_at_mut(i))?.unwrap();
                ensure!(a.len() == i && b.len() == n - i, "split_at_mut({i}) of {n} bits gives {} and {} bits", a.len(), b.len());
                for _ in 0..3 {
                    if ctx.rng.bool() {
                        nested(ctx, w, &mut a, start, depth)?;
                    } else {
                        nested(ctx, w, &mut b, p, depth)?;
                    }
                }
            }
            9 => {
                let (a, b) = w.call(ctx, "split_at", 0, 0, 1, || s.split_at(i))?.unwrap();
                ensure!(a.len() == i && b.len() == n - i, "split_at({i}) of {n} bits gives {} and {} bits", a.len(), b.len());
                let j = inside(ctx, n - i);
                if let Some(g) = w.call(ctx, "get of the right part", p + j, p + j + 1, f, || b.get(j))? {
                    ensure!(g == w.bit(p + j), "get of position {} is {g}", p + j);
                }
                if i > 0 {
                    w.call(ctx, "get of the left part", p - 1, p, f, || a.get(i - 1))?;
                    w.reject(ctx, "get after the left part", || a.get(i))?;
                }
                walk(ctx, w, b.iter(), p, n - i)?;
            }
            _ => {
                let t = w.call(ctx, "slice", 0, 0, 1, || s.slice(i..))?.unwrap();
                ensure!(t.len() == n - i, "slice({i}..) of {n} bits has {} bits", t.len());
                walk(ctx, w, t.iter(), p, n - i)?;
            }
        }
    }
    Ok(())
}

/// A view through a view: its backing is the view itself, not what that one refers to.
fn nested<B: BitGet + BitModify>(ctx: &mut Ctx, w: &mut Watch, t: &mut BitSlice<B>, start: usize, depth: usize) -> R {
    let n = t.len();
    let a = ctx.rng.below(n.min(3) + 1);
    let b = n - ctx.rng.below((n - a).min(3) + 1);
    let mut u = BitSlice::new(t as Dyn, a, b);
    work(ctx, w, &mut u, start + a, depth - 1)
}

/// Follows an iterator over the `left` positions from `at`.
fn walk(ctx: &mut Ctx, w: &Watch, mut it: impl ExactSizeIterator<Item = bool>, mut at: usize, mut left: usize) -> R {
    let end = at + left;
    for _ in 0..ctx.scale(12, 5) {
        let (l, h) = w.call(ctx, "len of an iterator", 0, 0, 1, || (it.len(), it.size_hint()))?.unwrap();
        ensure!(l == left && h == (left, Some(left)), "an iterator over {at}..{end} has length {l} and hint {h:?}");
        let f = fuse(ctx);
        let k = if ctx.rng.chance(1, 3) { ctx.rng.below(6) } else { 0 };
        let got = w.call(ctx, "iterator", at, end, f, || if k == 0 { it.next() } else { it.nth(k) })?;
        ctx.ev("step of an iterator", 1);
        match got {
            Some(g) if k < left => {
                ensure!(g == Some(w.bit(at + k)), "an iterator gives {g:?} for position {}", at + k);
                left -= k + 1;
            }
            Some(g) => {
                ensure!(g.is_none(), "an iterator gives {g:?} after its end");
                left = 0;
            }
            None => {
                // the backing failed: the iterator may stand at the failed bit or after it
                let l = it.len();
                ensure!(l <= left && left - l <= k + 1, "an iterator with {left} bits to come has {l} after a failure");
                left = l;
            }
        }
        at = end - left;
    }
    Ok(())
}

fn views(ctx: &mut Ctx) -> R {
    let mut w = Watch::new(ctx.rng.u64());
    let (a, b) = window(ctx, usize::MAX);
    ctx.desc(|| format!("views of the positions {a}..{b}"));
    ctx.distinct(mix(a as u64, b as u64));
    {
        let mut p = Probe(w.log.clone());
        let mut s = BitSlice::new(&mut p as Dyn, a, b);
        ensure!(s.len() == b - a && s.is_empty() == (a == b), "a view of {a}..{b} has {} bits", s.len());
        work(ctx, &mut w, &mut s, a, 3)?;
    }
    let mut s = BitSlice::new(Probe(w.log.clone()), a, b);
    let c = w.call(ctx, "clone", 0, 0, 1, || s.clone())?.unwrap();
    ensure!(c.len() == b - a, "a copy of a view of {a}..{b} has {} bits", c.len());
    if a < b {
        let (mut l, mut r) = s.split_at_mut((b - a - 1).min(64));
        nested(ctx, &mut w, &mut r, a + (b - a - 1).min(64), 2)?;
        nested(ctx, &mut w, &mut l, a, 2)?;
    }
    nested(ctx, &mut w, &mut s, a, 2)?;
    walk(ctx, &w, c.into_iter(), a, b - a)?;
    drop(s);
    w.same("all")?;
    ensure!(Rc::strong_count(&w.log) == 1, "{} backings were not dropped", Rc::strong_count(&w.log) - 1);
    Ok(())
}

fn iterators(ctx: &mut Ctx) -> R {
    let w = Watch::new(ctx.rng.u64());
    let (a, b) = window(ctx, usize::MAX);
    ctx.desc(|| format!("iterators over the positions {a}..{b}"));
    ctx.distinct(mix(a as u64, b as u64));
    let p = Probe(w.log.clone());
    walk(ctx, &w, Iter::new(&p, a, b), a, b - a)?;
    walk(ctx, &w, Iter::new(p.clone(), a, b), a, b - a)?;
    walk(ctx, &w, Iter::new(Rc::new(p.clone()), a, b), a, b - a)?;
    let s = BitSlice::new(&p, a, b);
    walk(ctx, &w, s.iter(), a, b - a)?;
    walk(ctx, &w, (&s).into_iter(), a, b - a)?;
    walk(ctx, &w, s.into_iter(), a, b - a)?;
    if a < b {
        // from the end to the start: such an iterator may be rejected, otherwise it covers nothing
        let made = w.call(ctx, "iterator from the end to the start", 0, 0, 1, || outcome(|| Iter::new(&p, b, a)))?.unwrap();
        if let Some(it) = made {
            walk(ctx, &w, it, b, 0)?;
        }
    }
    let n = (b - a).min(ctx.scale(90, 12));
    let e = a + n;
    let all = w.call(ctx, "collect", a, e, 0, || Iter::new(&p, a, e).collect::<Vec<_>>())?.unwrap();
    ensure!((0..n).map(|i| w.bit(a + i)).eq(all.iter().copied()), "the bits {a}..{e} are collected as {all:?}");
    if n > 0 {
        let k = 1 + ctx.rng.below(n);
        let r = w.call(ctx, "count", a, e, k as u64, || Iter::new(&p, a, e).fold(0, |c, b| c + b as usize))?;
        ensure!(r.is_none(), "the backing failed at call {k} but folding {n} bits gives {r:?}");
    }
    drop(p);
    ensure!(Rc::strong_count(&w.log) == 1, "{} backings were not dropped", Rc::strong_count(&w.log) - 1);
    Ok(())
}

fn equality(ctx: &mut Ctx) -> R {
    let (w, x) = (Watch::new(ctx.rng.u64()), Watch::new(ctx.rng.u64()));
    let (a, b) = window(ctx, ctx.scale(150, 20));
    let (c, _) = if ctx.rng.chance(1, 3) { (a, a) } else { window(ctx, 1) };
    let n = if ctx.rng.bool() { b - a } else { (64 * ctx.rng.incl(1, 4) + ctx.rng.below(3) - 1).min(usize::MAX - a) };
    let n = n.min(usize::MAX - c).min(ctx.scale(257, 20));
    let (b, d) = (a + n, c + n);
    ctx.desc(|| format!("comparing the positions {a}..{b} with the positions {c}..{d} of another backing"));
    ctx.distinct(mix(a as u64, c as u64));
    for i in 0..n {
        x.log.put(c + i, w.log.bit(a + i));
    }
    let differ = n > 0 && ctx.rng.bool();
    let k = if differ { ctx.rng.below(n) } else { 0 };
    if differ {
        x.log.put(c + k, !x.log.bit(c + k));
    }
    let (p, q) = (Probe(w.log.clone()), Probe(x.log.clone()));
    let (s, t) = (BitSlice::new(&p, a, b), BitSlice::new(q, c, d));
    for _ in 0..4 {
        let f = if ctx.rng.chance(1, 3) { 1 + ctx.rng.below(n + 1) as u64 } else { 0 };
        x.log.calls.borrow_mut().clear();
        let r = match ctx.rng.below(4) {
            0 => w.call(ctx, "==", a, b, f, || s == t)?,
            1 => w.call(ctx, "==", a, b, f, || t == s)?,
            2 => w.call(ctx, "!=", a, b, f, || !(s != t))?,
            _ => w.call(ctx, "==", a, b, f, || s.slice(..) == t.slice(0..))?,
        };
        ctx.ev("comparison", 1);
        for &y in x.log.calls.borrow().iter() {
            ensure!(c <= y && y < d, "a comparison touches position {y} instead of {c}..{d}");
        }
        if let Some(r) = r {
            ensure!(r != differ, "{n} bits {} but == gives {r}", if differ { "differ" } else { "are equal" });
        }
    }
    if d < usize::MAX {
        let longer = BitSlice::new(Probe(x.log.clone()), c, d + 1);
        let r = w.call(ctx, "==", a, b, 0, || s == longer)?;
        ensure!(r == Some(false), "{n} and {} bits are equal", n + 1);
    }
    drop((s, t));
    drop(p);
    ensure!(Rc::strong_count(&w.log) == 1 && Rc::strong_count(&x.log) == 1, "backings were not dropped");
    Ok(())
}
