use std::rc::Rc;
use succinct_neo::bit_vec::slice::BitSlice;

fn main() {
    let a = BitSlice::new(Rc::new(5u64), 0, 64);
    let b = a.clone();
    let t = std::thread::spawn(move || (0..50).map(|_| b.clone().get(0)).all(|x| x));
    assert!((0..50).map(|_| a.clone().get(0)).all(|x| x));
    t.join().unwrap();
}
