use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(100);
    let (mut a, b) = v.split_at_mut(40);
    let b = &b;
    std::thread::scope(|t| {
        t.spawn(move || b.iter().filter(|x| *x).count());
        (0..40).for_each(|i| a.flip(i));
    });
}
