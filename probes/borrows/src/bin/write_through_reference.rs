use succinct_neo::bit_vec::BitVec;

fn main() {
    let v = BitVec::new(100);
    let mut s = v.slice(..);
    let w = &v.raw()[0];
    s.set(0, true);
    assert!(*w < 2);
}
