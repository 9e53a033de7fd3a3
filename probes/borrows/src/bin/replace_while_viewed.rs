use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(1000);
    let s = v.slice(900..);
    *v = BitSlice::new(vec![0usize].into_boxed_slice(), 0, 64);
    assert!(!s.get(0));
}
