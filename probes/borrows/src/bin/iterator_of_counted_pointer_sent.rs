use std::rc::Rc;
use succinct_neo::bit_vec::slice::BitSlice;

fn main() {
    let r = Rc::new(5u64);
    for _ in 0..20 {
        let it = BitSlice::new(r.clone(), 0, 64).into_iter();
        let t = std::thread::spawn(move || it.count());
        for _ in 0..20 {
            drop(r.clone());
        }
        t.join().unwrap();
    }
}
