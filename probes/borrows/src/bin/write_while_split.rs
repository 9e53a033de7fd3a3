use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(1000);
    let (mut l, mut r) = v.split_at_mut(300);
    *v = BitSlice::new(vec![0usize].into_boxed_slice(), 0, 64);
    l.flip(100);
    r.flip(0);
}
