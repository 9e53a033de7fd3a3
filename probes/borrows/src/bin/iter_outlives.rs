use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut it;
    {
        let v = BitVec::new(1000);
        it = v.iter();
    }
    assert!(it.next().is_some());
}
