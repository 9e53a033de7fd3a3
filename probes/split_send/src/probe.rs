//! Compiles only if the halves of a mutable split can be sent to other threads. If so, two threads
//! write to their halves at once, next to the border between the halves.
use succinct_neo::bit_vec::BitVec;

fn main() {
    let rounds: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(10);
    for round in 0..rounds {
        let mid = 1 + round * 7 % 120;
        let n = mid + 40;
        let mut v = BitVec::new(n);
        let steps = if rounds < 10 { 20 } else { 2001 };
        {
            let (mut a, mut b) = v.split_at_mut(mid);
            std::thread::scope(|s| {
                s.spawn(move || {
                    for k in 0..steps {
                        a.flip(mid - 1 - k % mid.min(3));
                    }
                });
                s.spawn(move || {
                    for k in 0..steps {
                        b.flip(k % 3);
                    }
                });
            });
        }
        for i in 0..n {
            let flips = if i < mid {
                (0..steps).filter(|k| mid - 1 - k % mid.min(3) == i).count()
            } else {
                (0..steps).filter(|k| k % 3 == i - mid).count()
            };
            assert_eq!(v.get(i), flips % 2 == 1, "bit {i} of {n} after writing the halves split at {mid}");
        }
    }
}
