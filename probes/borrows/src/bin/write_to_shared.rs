use std::rc::Rc;
use succinct_neo::bit_vec::slice::BitSlice;

fn main() {
    let r = Rc::new(5u64);
    let x: &u64 = &r;
    let mut s = BitSlice::new(r.clone(), 0, 64);
    s.flip(0);
    assert!(*x == 5 || *x == 4);
}
