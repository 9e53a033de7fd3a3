//! What the other programs do, in an order that is fine. Each of them has to be rejected by the
//! compiler, or to run without undefined behaviour.
use std::rc::Rc;
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::LinearSearch;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

fn main() {
    let mut v = BitVec::new(1000);
    v.set(3, true);
    v.flip_bit(4);
    {
        let s = v.slice(3..);
        assert!(s.get(0) && s.iter().next() == Some(true) && s.into_iter().len() == 997);
        let (l, r) = v.split_at(4);
        assert!(l.get_bit(3) && r.get_bit(0));
        assert!(v.raw()[0] == 24 && v.backing()[0] == 24);
    }
    {
        let mut s = v.slice_mut(10..20);
        s.set_bit(0, true);
        let (mut l, mut r) = v.split_at_mut(500);
        l.flip(0);
        r.flip(0);
    }
    {
        let f = FlatPopcount::<LinearSearch>::new(&v);
        assert!(f.rank::<true>(500) == 4 && f.select(0) == Some(0));
    }
    *v = BitSlice::new(vec![7usize].into_boxed_slice(), 0, 64);
    assert!(v.get(0));
    let mut i = IntVec::new(9);
    i.push(5);
    assert!(i.iter().next() == Some(5) && i.get(0) == 5 && i.raw_data()[0] == 5);
    assert!(BitSlice::new(Rc::new(5u64), 0, 64).clone().get(0));
}
