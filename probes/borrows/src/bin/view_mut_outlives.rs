use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut s;
    {
        let mut v = BitVec::new(1000);
        s = v.slice_mut(3..);
    }
    s.flip(0);
    assert!(s.get(0));
}
