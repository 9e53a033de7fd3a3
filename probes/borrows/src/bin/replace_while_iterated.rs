use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(1000);
    let mut it = v.iter();
    it.next();
    *v = BitSlice::new(vec![0usize].into_boxed_slice(), 0, 64);
    assert!(it.next().is_some());
}
