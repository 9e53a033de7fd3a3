use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(100);
    let (a, b) = v.split_at_mut(40);
    let (a, b) = (&a, &b);
    std::thread::scope(|t| {
        t.spawn(move || (0..40).filter(|i| a.get(*i)).count());
        t.spawn(move || (0..60).filter(|i| b.get(*i)).count());
    });
}
