use succinct_neo::bit_vec::BitVec;

fn main() {
    let (mut l, mut r);
    {
        let mut v = BitVec::new(1000);
        (l, r) = v.split_at_mut(300);
    }
    l.flip(0);
    r.flip(0);
}
