use std::cell::Cell;
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitGet;

/// Counts its reads.
struct Counting(Cell<usize>);

impl BitGet for Counting {
    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
        self.get_bit(index)
    }
    fn get_bit(&self, _index: usize) -> bool {
        self.0.set(self.0.get() + 1);
        true
    }
}

fn main() {
    let s = BitSlice::new(Counting(Cell::new(0)), 0, 64);
    std::thread::scope(|t| {
        for _ in 0..2 {
            t.spawn(|| (0..50).all(|i| s.get(i)));
        }
    });
}
