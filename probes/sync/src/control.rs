//! Uses the types like probe.rs, without asking anything of them.
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::int_vec::IntVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::FlatPopcount;

fn shared<T>() {}

fn main() {
    shared::<BitVec>();
    shared::<BitSlice<&'static BitVec>>();
    shared::<BitSlice<&'static [usize]>>();
    shared::<IntVec>();
    shared::<FlatPopcount<'static, LinearSearch>>();
    shared::<FlatPopcount<'static, BinarySearch>>();
}
