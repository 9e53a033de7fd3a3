use succinct_neo::bit_vec::BitVec;

fn main() {
    let v = BitVec::new(1000);
    let t;
    {
        let s = Box::new(v.slice(3..));
        t = s.slice(2..);
    }
    assert!(!t.get(0));
}
