use succinct_neo::int_vec::IntVec;

fn main() {
    let mut it;
    {
        let mut v = IntVec::new(60);
        v.push(1);
        it = v.iter();
    }
    assert!(it.next() == Some(1));
}
