use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(100);
    let (a, mut b) = v.split_at_mut(40);
    let it = a.into_iter();
    std::thread::scope(|t| {
        t.spawn(move || it.filter(|x| *x).count());
        (0..60).for_each(|i| b.flip(i));
    });
}
