//! A global allocator that watches the heap: fresh memory is filled with garbage, freed memory is
//! overwritten, every block carries canaries on both sides, and live bytes are counted.
//!
//! It is left out (`--cfg plain_alloc`) when a sanitizer or Miri watches the heap instead.

use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub static CORRUPT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    // per thread, so that threads of the harness do not disturb the measurements
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn count(size: isize) {
    let live = LIVE.get() + size;
    LIVE.set(live);
    if size >= 0 {
        PEAK.set(PEAK.get().max(live));
        COUNT.set(COUNT.get() + 1);
    }
}

#[cfg(not(plain_alloc))]
mod imp {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};

    const PAD: usize = 32;
    const CANARY: u64 = 0xC0DE_FACE_D00D_5EED;
    const FILL: usize = 1 << 16;

    pub struct Watch;

    #[inline]
    fn plain(l: &Layout) -> bool {
        l.align() > 16
    }

    unsafe fn outer(l: &Layout) -> Layout {
        Layout::from_size_align_unchecked(l.size() + 2 * PAD, 16)
    }

    unsafe fn seal(base: *mut u8, size: usize) -> *mut u8 {
        let h = base as *mut u64;
        h.write(CANARY);
        h.add(1).write(size as u64 ^ CANARY);
        h.add(2).write(CANARY);
        h.add(3).write(CANARY);
        let t = base.add(PAD + size) as *mut u64;
        for k in 0..PAD / 8 {
            t.add(k).write_unaligned(CANARY);
        }
        count(size as isize);
        base.add(PAD)
    }

    unsafe fn fill(p: *mut u8, size: usize, b: u8) {
        if size <= 2 * FILL {
            p.write_bytes(b, size);
        } else {
            p.write_bytes(b, FILL);
            p.add(size - FILL).write_bytes(b, FILL);
        }
    }

    // The compiler knows how many bytes were asked for. Where it can follow the pointer into these
    // functions, it takes the canaries for accesses outside of the block and removes what follows,
    // so the pointer is hidden from it.
    unsafe impl GlobalAlloc for Watch {
        #[inline(never)]
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if plain(&l) {
                count(l.size() as isize);
                return System.alloc(l);
            }
            let base = System.alloc(outer(&l));
            if base.is_null() {
                return base;
            }
            let p = seal(base, l.size());
            fill(p, l.size(), 0xA5);
            std::hint::black_box(p)
        }

        #[inline(never)]
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if plain(&l) {
                count(l.size() as isize);
                return System.alloc_zeroed(l);
            }
            let base = System.alloc_zeroed(outer(&l));
            if base.is_null() {
                return base;
            }
            std::hint::black_box(seal(base, l.size()))
        }

        #[inline(never)]
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let p = std::hint::black_box(p);
            if plain(&l) {
                count(-(l.size() as isize));
                return System.dealloc(p, l);
            }
            let size = l.size();
            let base = p.sub(PAD);
            let h = base as *const u64;
            let t = p.add(size) as *const u64;
            let mut ok = h.read() == CANARY
                && h.add(1).read() == size as u64 ^ CANARY
                && h.add(2).read() == CANARY
                && h.add(3).read() == CANARY;
            for k in 0..PAD / 8 {
                ok &= t.add(k).read_unaligned() == CANARY;
            }
            if !ok {
                CORRUPT.fetch_add(1, Relaxed);
            }
            fill(p, size, 0x5A);
            count(-(size as isize));
            System.dealloc(base, outer(&l))
        }
    }

    #[global_allocator]
    static WATCH: Watch = Watch;
}

/// Bytes that this thread holds on the heap.
pub fn live() -> isize {
    LIVE.get()
}

/// Allocations that this thread has made so far.
pub fn allocations() -> u64 {
    COUNT.get()
}

pub fn corrupt() -> usize {
    CORRUPT.load(Relaxed)
}

pub fn reset_peak() {
    PEAK.set(LIVE.get());
}

pub fn peak() -> isize {
    PEAK.get()
}
