use succinct_neo::bit_vec::BitVec;

fn main() {
    let (l, r);
    {
        let v = BitVec::new(1000);
        (l, r) = v.split_at(300);
    }
    assert!(!l.get(0) && !r.get(0));
}
