use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::LinearSearch;
use succinct_neo::rank_select::{FlatPopcount, SelectSupport};

fn main() {
    let f;
    {
        let mut v = BitVec::new(10000);
        v.set(9000, true);
        f = FlatPopcount::<LinearSearch>::new(&v);
    }
    assert!(f.select(0) == Some(9000));
}
