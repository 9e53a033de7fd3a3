//! Compiles only if the types can be shared between threads and sent to other threads.
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::int_vec::IntVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::FlatPopcount;

fn shared<T: Send + Sync>() {}

fn main() {
    shared::<BitVec>();
    shared::<BitSlice<&'static BitVec>>();
    shared::<BitSlice<&'static [usize]>>();
    shared::<IntVec>();
    shared::<FlatPopcount<'static, LinearSearch>>();
    shared::<FlatPopcount<'static, BinarySearch>>();
}
