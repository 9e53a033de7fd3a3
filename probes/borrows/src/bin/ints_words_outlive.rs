use succinct_neo::int_vec::IntVec;

fn main() {
    let mut v = IntVec::new(60);
    v.push(1);
    let w = v.raw_data();
    for i in 0..1000 {
        v.push(i);
    }
    assert!(w[0] & 1 == 1);
}
