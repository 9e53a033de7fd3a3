use succinct_neo::bit_vec::BitVec;

fn main() {
    let w;
    {
        let v = BitVec::new(1000);
        w = v.raw();
    }
    assert!(w[15] == 0);
}
