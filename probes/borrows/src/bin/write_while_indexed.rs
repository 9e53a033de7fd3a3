use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::LinearSearch;
use succinct_neo::rank_select::{FlatPopcount, SelectSupport};

fn main() {
    let mut v = BitVec::new(100);
    v.set(99, true);
    let f = FlatPopcount::<LinearSearch>::new(&v);
    v.set(99, false);
    std::hint::black_box(f.select(0));
}
