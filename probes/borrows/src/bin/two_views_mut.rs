use succinct_neo::bit_vec::BitVec;

fn main() {
    let mut v = BitVec::new(1000);
    let mut a = v.slice_mut(..500);
    let mut b = v.slice_mut(400..);
    a.set(450, true);
    b.set(50, true);
    a.flip(450);
    assert!(!b.get(50));
}
