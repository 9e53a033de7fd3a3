use succinct_neo::bit_vec::BitVec;

fn main() {
    let s;
    {
        let mut v = BitVec::new(1000);
        v.set(3, true);
        s = v.slice(3..);
    }
    assert!(s.get(0));
}
