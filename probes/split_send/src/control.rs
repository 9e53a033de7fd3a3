//! Like probe.rs, in one thread.
use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(100);
    let (mut a, mut b) = v.split_at_mut(10);
    a.flip(9);
    b.flip(0);
    assert!(a.get(9) && b.get(0));
}
