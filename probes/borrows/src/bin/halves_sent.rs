use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(100);
    let (mut a, mut b) = v.split_at_mut(40);
    std::thread::scope(|t| {
        t.spawn(move || (0..40).for_each(|i| a.flip(i)));
        (0..60).for_each(|i| b.flip(i));
    });
}
