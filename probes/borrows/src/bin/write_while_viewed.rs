use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(1000);
    let s = v.slice(3..);
    v.set(3, true);
    assert!(s.get(0));
}
