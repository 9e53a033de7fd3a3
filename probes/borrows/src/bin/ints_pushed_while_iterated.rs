use succinct_neo::int_vec::IntVec;

fn main() {
    let mut v = IntVec::new(60);
    v.push(1);
    let mut it = v.iter();
    for i in 0..1000 {
        v.push(i);
    }
    assert!(it.next() == Some(1));
}
