use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::{FlatPopcount, RankSupport};

fn main() {
    let mut v = BitVec::new(10000);
    let f = FlatPopcount::<()>::new(&v);
    *v = BitSlice::new(vec![0usize].into_boxed_slice(), 0, 64);
    assert!(f.rank::<true>(9000) == 0);
}
