From 3458a2ee6d40385c064e459acc8ca4fc2edeecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:54 +0000
Subject: [PATCH 01/15] fix: export SelectSupport so that select can be called
 by users

The trait lived in a private module and was never re-exported, so the select
support of FlatPopcount could not be used outside of this crate.
---
 succinct_neo/src/rank_select/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
-- 
2.43.0


From 25c072e36c649da58823f500cd009cb0c4abc6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:54 +0000
Subject: [PATCH 02/15] fix: keep select inside of the index for the last block
 and for exceeding ranks

Searching for a one in the last L1 block read one entry past the end of the
L1 index. A rank equal to the number of ones was not rejected and ran past the
end of the bit vector, or panicked if there were no ones at all.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..6a5ed36 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -249,18 +249,16 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
-        // SAFETY: The data in sampled_ones should be correct, so this must work too
-        let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-        while l1 <= rank && l1_index < self.l1_index.len() {
+        // SAFETY: We only advance to an l1 index that is in bounds
+        while l1_index + 1 < self.l1_index.len() && unsafe { self.l1(l1_index + 1) } <= rank {
             l1_index += 1;
-            l1 = unsafe { self.l1(l1_index) };
         }
-        l1_index -= 1;
+        // SAFETY: The data in sampled_ones should be correct, so this must work too
         rank -= unsafe { self.l1(l1_index) };
 
         // Find the correct l2 block inside the l1 block
-- 
2.43.0


From c854f1651def59f87e531d75e0cd14564d40a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:54 +0000
Subject: [PATCH 03/15] fix: do not read out of bounds when ranking at or after
 the end

rank(len) read one word past the backing data if the length is a multiple of
the word size, and any greater index read arbitrary memory. Ranking at the
length now counts the whole bit vector, greater indices panic.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 6a5ed36..0ebccc7 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,6 +215,14 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index >= self.len() {
+            if index > self.len() {
+                panic!("index is {index} but length is {}", self.len())
+            }
+            let ones = self.number_of_ones;
+            return if TARGET { ones } else { index - ones };
+        }
+
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
-- 
2.43.0


From 288171e638c31ff8b7835aba58604ec629bdc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:09 +0000
Subject: [PATCH 04/15] fix: reject slice bounds that overflow in every build
 profile

Without overflow checks, slice(..=usize::MAX) wrapped around to an empty slice
and an excluded start bound of usize::MAX wrapped around to the whole slice.
---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..f552d5f 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound out of range"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound out of range"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound out of range"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound out of range"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0


From dcee1ef0d75dc7e6a77bc51ce8e35014ee6b9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:09 +0000
Subject: [PATCH 05/15] fix: report exact size hints from the exact size
 iterators

ExactSizeIterator requires size_hint to be exact. With the default hint, the
length of adaptors such as zip panics.
---
 succinct_neo/src/bit_vec/slice/trait_impls.rs |  7 ++++++-
 succinct_neo/src/int_vec/mod.rs               | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 95a3015..06e69d6 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -62,11 +62,16 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         self.current += 1;
         Some(v)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.end.saturating_sub(self.current);
+        (len, Some(len))
+    }
 }
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
     fn len(&self) -> usize {
-        self.end - self.current
+        self.end.saturating_sub(self.current)
     }
 }
 
diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..26fef3a 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -200,6 +200,11 @@ impl Iterator for IntoIter {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.v.len() - self.i;
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for IntoIter {
@@ -225,6 +230,11 @@ impl Iterator for Iter<'_> {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.v.len() - self.i;
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter<'_> {
-- 
2.43.0


From e75adedba177e6c89a776ef1a4acbfcf34f0149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:48 +0000
Subject: [PATCH 06/15] fix: do not access memory outside of the backing
 through bit slices

BitSlice::new and Iter::new are safe but accept any bounds, while the checked
accessors and the iterator used unchecked access on the backing. A slice with
bounds exceeding its backing could read and write arbitrary memory. The bounds
order was also only checked in debug builds, where the length of an inverted
slice wraps around in release builds.
---
 succinct_neo/src/bit_vec/mod.rs               | 4 ++--
 succinct_neo/src/bit_vec/slice/mod.rs         | 2 +-
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 9 +++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/bit_vec/mod.rs b/succinct_neo/src/bit_vec/mod.rs
index 789e891..59cfd77 100644
--- a/succinct_neo/src/bit_vec/mod.rs
+++ b/succinct_neo/src/bit_vec/mod.rs
@@ -94,7 +94,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.data.set_bit(index, value)
     }
 
     #[inline]
@@ -107,7 +107,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.data.flip_bit(index)
     }
 }
 
diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index 1e9e16a..dddd1dd 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -54,7 +54,7 @@ impl<Backing> BitSlice<Backing> {
     /// assert_eq!(false, slice.get_bit(3));
     /// ```
     pub fn new(backing: Backing, start: usize, end: usize) -> Self {
-        debug_assert!(
+        assert!(
             start <= end,
             "end index must be greater or equal to the start index"
         );
diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 06e69d6..b500cb5 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -19,7 +19,8 @@ impl<Backing: BitGet> BitGet for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.get_bit_unchecked(index) }
+        // The bounds of this slice were chosen by the user, so the backing needs to check them as well
+        self.backing.get_bit(self.start + index)
     }
 }
 
@@ -34,7 +35,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.backing.set_bit(self.start + index, value)
     }
 
     #[inline]
@@ -47,7 +48,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.backing.flip_bit(self.start + index)
     }
 }
 
@@ -58,7 +59,7 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         if self.current >= self.end {
             return None;
         }
-        let v = unsafe { self.backing.get_bit_unchecked(self.current) };
+        let v = self.backing.get_bit(self.current);
         self.current += 1;
         Some(v)
     }
-- 
2.43.0


From 3ae202f3f56acd953513a14529e73b1f50ac832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:03 +0000
Subject: [PATCH 07/15] fix: do not hand out aliasing mutable references from
 split_at_mut

Both parts held a mutable reference to the same backing. This is undefined
behaviour, and the parts could even be sent to different threads, which then
lost updates in the word at the split index. The parts now share a handle that
only borrows the backing during an access and cannot leave its thread.
---
 succinct_neo/src/bit_vec/slice/mod.rs   | 23 ++++----
 succinct_neo/src/bit_vec/slice/split.rs | 78 +++++++++++++++++++++++++
 2 files changed, 91 insertions(+), 10 deletions(-)
 create mode 100644 succinct_neo/src/bit_vec/slice/split.rs

diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index dddd1dd..e6fe9f9 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -1,8 +1,11 @@
 use super::{BitGet, BitModify};
 
 mod slicing;
+mod split;
 mod trait_impls;
 
+pub use split::SplitMut;
+
 /// A view into a segment of a type which supports `BitGet` and/or `BitModify` if the backing type supports it respectively.
 ///
 /// Properties:
@@ -198,21 +201,21 @@ impl<Backing: BitModify> BitSlice<Backing> {
     pub fn split_at_mut(
         &mut self,
         index: usize,
-    ) -> (BitSlice<&mut Backing>, BitSlice<&mut Backing>) {
+    ) -> (
+        BitSlice<SplitMut<'_, Backing>>,
+        BitSlice<SplitMut<'_, Backing>>,
+    ) {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
 
-        let ptr = &mut self.backing as *mut Backing;
+        let mid = self.start + index;
+        let (left, right) = SplitMut::pair(&mut self.backing);
 
-        // SAFETY: We know this is safe since we just created the pointer so it definitely is not null
-        // Also, since the slices we create do not overlap, it is no problem to have two mutable references to the backing datastructure
-        unsafe {
-            (
-                BitSlice::new(ptr.as_mut().unwrap(), self.start, self.start + index),
-                BitSlice::new(ptr.as_mut().unwrap(), self.start + index, self.end),
-            )
-        }
+        (
+            BitSlice::new(left, self.start, mid),
+            BitSlice::new(right, mid, self.end),
+        )
     }
 
     /// Sets the bit at an index to a value without checking for bounds.
diff --git a/succinct_neo/src/bit_vec/slice/split.rs b/succinct_neo/src/bit_vec/slice/split.rs
new file mode 100644
index 0000000..328676d
--- /dev/null
+++ b/succinct_neo/src/bit_vec/slice/split.rs
@@ -0,0 +1,78 @@
+use std::{
+    fmt::{Debug, Formatter},
+    marker::PhantomData,
+    ptr::NonNull,
+};
+
+use super::{BitGet, BitModify};
+
+/// The backing of a mutable slice which was split into two parts.
+///
+/// Both parts refer to the same backing, so neither part may hold a mutable reference to it. Each
+/// access creates a reference that only lives as long as the access itself.
+/// Bits of both parts may reside in the same word, so this must stay on a single thread.
+pub struct SplitMut<'a, Backing> {
+    ptr: NonNull<Backing>,
+    _mark: PhantomData<&'a mut Backing>,
+}
+
+impl<'a, Backing> SplitMut<'a, Backing> {
+    /// Creates two handles to the same backing.
+    pub(super) fn pair(backing: &'a mut Backing) -> (Self, Self) {
+        let ptr = NonNull::from(backing);
+        (
+            Self {
+                ptr,
+                _mark: PhantomData,
+            },
+            Self {
+                ptr,
+                _mark: PhantomData,
+            },
+        )
+    }
+}
+
+// SAFETY (for all accesses to `ptr` below): The backing is mutably borrowed for 'a and only
+// accessible through the two handles. These cannot leave their thread, and no reference to the
+// backing outlives a single access. So this reference is the only one.
+
+impl<Backing: BitGet> BitGet for SplitMut<'_, Backing> {
+    #[inline]
+    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
+        self.ptr.as_ref().get_bit_unchecked(index)
+    }
+
+    #[inline]
+    fn get_bit(&self, index: usize) -> bool {
+        unsafe { self.ptr.as_ref() }.get_bit(index)
+    }
+}
+
+impl<Backing: BitModify> BitModify for SplitMut<'_, Backing> {
+    #[inline]
+    unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {
+        self.ptr.as_mut().set_bit_unchecked(index, value)
+    }
+
+    #[inline]
+    fn set_bit(&mut self, index: usize, value: bool) {
+        unsafe { self.ptr.as_mut() }.set_bit(index, value)
+    }
+
+    #[inline]
+    unsafe fn flip_bit_unchecked(&mut self, index: usize) {
+        self.ptr.as_mut().flip_bit_unchecked(index)
+    }
+
+    #[inline]
+    fn flip_bit(&mut self, index: usize) {
+        unsafe { self.ptr.as_mut() }.flip_bit(index)
+    }
+}
+
+impl<Backing: Debug> Debug for SplitMut<'_, Backing> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        unsafe { self.ptr.as_ref() }.fmt(f)
+    }
+}
-- 
2.43.0


From 998d1f237a9db4be7960bcefb4f4a11dbef628ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:14 +0000
Subject: [PATCH 08/15] fix: support 64 bit integers and reject unsupported
 widths in IntVec

With a width of 64 or more the value mask overflowed: pushing panicked with
overflow checks, and without them set() wrote past the end of the data.
---
 succinct_neo/src/int_vec/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 26fef3a..42207e3 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -21,6 +21,9 @@ impl IntVec {
     #[inline]
     pub fn with_capacity(width: usize, capacity: usize) -> Self {
         let block_size = Self::block_width();
+        if width == 0 || width > block_size {
+            panic!("width is {width} but must be in 1..={block_size}")
+        }
         let num_blocks = (capacity * width) / block_size;
 
         let mut temp = Self {
@@ -41,7 +44,7 @@ impl IntVec {
 
     #[inline]
     const fn mask(&self) -> usize {
-        (1 << self.width) - 1
+        usize::MAX >> (Self::block_width() - self.width)
     }
 
     /// Calculates the current offset inside the last used block where the next integer would be
@@ -52,13 +55,17 @@ impl IntVec {
     }
 
     pub fn push(&mut self, v: usize) {
-        if v >= (1 << self.width) {
+        if v > self.mask() {
             panic!("value too large for {}-bit integer", self.width)
         }
         let offset = self.current_offset();
         let mask = self.mask();
         if offset == 0 {
             *self.data.last_mut().unwrap() |= v & mask;
+            // The integer fills the entire block
+            if self.width == Self::block_width() {
+                self.data.push(0);
+            }
             self.size += 1;
             return;
         }
@@ -67,7 +74,6 @@ impl IntVec {
         if offset + self.width >= Self::block_width() {
             let fitting_bits = Self::block_width() - offset;
             let fitting_mask = (1 << fitting_bits) - 1;
-            let mask = (1 << self.width) - 1;
             *self.data.last_mut().unwrap() |= (v & fitting_mask) << offset;
             let hi = (v & mask) >> fitting_bits;
             self.data.push(hi);
@@ -115,7 +121,7 @@ impl IntAccess for IntVec {
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             let remaining_bits = self.width - fitting_bits;
             let lo = self.data[index_block] >> index_offset;
@@ -124,7 +130,7 @@ impl IntAccess for IntVec {
             return (hi << fitting_bits) | lo;
         }
 
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         (self.data[index_block] >> index_offset) & mask
     }
 
@@ -132,20 +138,20 @@ impl IntAccess for IntVec {
         if index >= self.len() {
             panic!("length is {} but index is {index}", self.len())
         }
-        if value >= (1 << self.width) {
+        if value > self.mask() {
             panic!("value {value} too large for {}-bit integer", self.width)
         }
         unsafe { self.set_unchecked(index, value) }
     }
 
     unsafe fn set_unchecked(&mut self, index: usize, value: usize) {
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         let value = value & mask;
         let index_block = (index * self.width) / Self::block_width();
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             unsafe {
                 let lower_block = self.data.get_unchecked_mut(index_block);
-- 
2.43.0


From 482e9e1a8283d877e49a7f0ab0e7372b3f9bfa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:14 +0000
Subject: [PATCH 09/15] fix: start the search for the L1 block in select at the
 sampled position

The samples hold the position of a one divided by 8192, but L1 blocks are 4096
bits in size. Using a sample as the L1 block directly started the search at half
of the actual position, so the time for select grew with the position.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 0ebccc7..ea8bb78 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -260,7 +260,8 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         if rank >= self.number_of_ones {
             return None;
         }
-        let mut l1_index = self.sampled_ones.get(rank >> 13);
+        // The samples are in units of 8192 bits, which are two l1 blocks
+        let mut l1_index = self.sampled_ones.get(rank >> 13) << 1;
         // Find the l1 block that contains the 1 we need
         // SAFETY: We only advance to an l1 index that is in bounds
         while l1_index + 1 < self.l1_index.len() && unsafe { self.l1(l1_index + 1) } <= rank {
-- 
2.43.0


From e121d8ee9a2270dbf6bfdc29378f20937c0d50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:48 +0000
Subject: [PATCH 10/15] fix: honour the offset of the bit vector's content in
 rank and select

The content of a BitVec can be replaced by a slice that starts inside of its
words. rank and select ignored that offset, which gave wrong results and could
make select read outside of the words.
---
 succinct_neo/src/bit_vec/slice/mod.rs         |  6 ++++
 .../src/rank_select/flat_popcount/mod.rs      | 31 ++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index e6fe9f9..7d6ca46 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -82,6 +82,12 @@ impl<Backing> BitSlice<Backing> {
         self.len() == 0
     }
 
+    /// The index of the first bit of this slice inside the backing data.
+    #[inline]
+    pub(crate) fn start(&self) -> usize {
+        self.start
+    }
+
     /// Grants access to the backing type of this bit slice
     #[inline]
     pub fn backing(&self) -> &Backing {
diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index ea8bb78..ebcafa0 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -1,5 +1,5 @@
 use std::marker::PhantomData;
-use crate::bit_vec::{BitGet, BitVec};
+use crate::bit_vec::{slice::Iter, BitGet, BitVec};
 
 use super::traits::RankSupport;
 
@@ -34,6 +34,8 @@ pub struct FlatPopcount<'a, Strat = LinearSearch> {
     l1_index: Vec<u128>,
     sampled_ones: IntVec,
     number_of_ones: usize,
+    /// The number of ones in the words of the bit vector which are located before its first bit
+    ones_before: usize,
     _mark: PhantomData<Strat>,
 }
 
@@ -69,18 +71,21 @@ impl<'a, T> FlatPopcount<'a, T> {
                 l1_index: Vec::with_capacity(0),
                 sampled_ones: IntVec::new(1),
                 _mark: Default::default(),
-                number_of_ones: 0
+                number_of_ones: 0,
+                ones_before: 0,
             }
         }
 
-        let n = backing.len();
+        // The indices are built for the words, so bits before the start count as well
+        let n = backing.start() + backing.len();
         let log_n = n.ilog2() as usize + 1;
         let mut temp = Self {
             backing,
             l1_index: Vec::with_capacity((n as f64 / L1_BLOCK_SIZE as f64).ceil() as usize + 1),
             sampled_ones: IntVec::new(log_n),
             _mark: Default::default(),
-            number_of_ones: 0
+            number_of_ones: 0,
+            ones_before: 0,
         };
         temp.build_indices();
         temp.sample_ones();
@@ -127,7 +132,12 @@ impl<'a, T> FlatPopcount<'a, T> {
     /// Samples every 8192nd one and saves the l1 block it is in
     fn sample_ones(&mut self) {
         let mut count = -1isize;
-        for (i, value) in self.backing.iter().enumerate() {
+        let start = self.backing.start();
+        let bits = Iter::new(self.backing.backing(), 0, start + self.backing.len());
+        for (i, value) in bits.enumerate() {
+            if i == start {
+                self.ones_before = (count + 1) as usize;
+            }
             if value {
                 count += 1;
                 if count & ((1 << 13) - 1) == 0 {
@@ -135,7 +145,7 @@ impl<'a, T> FlatPopcount<'a, T> {
                 }
             }
         }
-        self.number_of_ones = (count + 1) as usize;
+        self.number_of_ones = (count + 1) as usize - self.ones_before;
     }
 
     /// Gets the number of bits in the underlying bit vector.
@@ -223,6 +233,8 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
             return if TARGET { ones } else { index - ones };
         }
 
+        let rank_index = index;
+        let index = self.backing.start() + index;
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -247,10 +259,11 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
                 .count_ones() as usize
         }
 
+        let ones = ones - self.ones_before;
         if TARGET {
             ones
         } else {
-            index - ones
+            rank_index - ones
         }
     }
 }
@@ -260,6 +273,7 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         if rank >= self.number_of_ones {
             return None;
         }
+        rank += self.ones_before;
         // The samples are in units of 8192 bits, which are two l1 blocks
         let mut l1_index = self.sampled_ones.get(rank >> 13) << 1;
         // Find the l1 block that contains the 1 we need
@@ -304,7 +318,8 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
             index_in_word += 1;
         };
 
-        Some((l1_index << L1_BLOCK_SIZE_EXP) + (l2_index << L2_BLOCK_SIZE_EXP) + (index_in_l2 << 6) + index_in_word)
+        let index = (l1_index << L1_BLOCK_SIZE_EXP) + (l2_index << L2_BLOCK_SIZE_EXP) + (index_in_l2 << 6) + index_in_word;
+        Some(index - self.backing.start())
     }
 }
 
-- 
2.43.0


From 385c3048f4f50ec63eef6d4d52258eb02f797205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:46 +0000
Subject: [PATCH 11/15] fix: borrow the backing of split slices per access

While one part of a split slice was accessed, a backing with its own access
functions could reach the other part and get a second mutable reference.
---
 succinct_neo/src/bit_vec/slice/split.rs | 37 ++++++++++---------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/split.rs b/succinct_neo/src/bit_vec/slice/split.rs
index 328676d..77d0ee9 100644
--- a/succinct_neo/src/bit_vec/slice/split.rs
+++ b/succinct_neo/src/bit_vec/slice/split.rs
@@ -1,7 +1,7 @@
 use std::{
+    cell::RefCell,
     fmt::{Debug, Formatter},
-    marker::PhantomData,
-    ptr::NonNull,
+    rc::Rc,
 };
 
 use super::{BitGet, BitModify};
@@ -9,70 +9,61 @@ use super::{BitGet, BitModify};
 /// The backing of a mutable slice which was split into two parts.
 ///
 /// Both parts refer to the same backing, so neither part may hold a mutable reference to it. Each
-/// access creates a reference that only lives as long as the access itself.
+/// access borrows the backing only as long as the access itself.
 /// Bits of both parts may reside in the same word, so this must stay on a single thread.
 pub struct SplitMut<'a, Backing> {
-    ptr: NonNull<Backing>,
-    _mark: PhantomData<&'a mut Backing>,
+    backing: Rc<RefCell<&'a mut Backing>>,
 }
 
 impl<'a, Backing> SplitMut<'a, Backing> {
     /// Creates two handles to the same backing.
     pub(super) fn pair(backing: &'a mut Backing) -> (Self, Self) {
-        let ptr = NonNull::from(backing);
+        let backing = Rc::new(RefCell::new(backing));
         (
             Self {
-                ptr,
-                _mark: PhantomData,
-            },
-            Self {
-                ptr,
-                _mark: PhantomData,
+                backing: backing.clone(),
             },
+            Self { backing },
         )
     }
 }
 
-// SAFETY (for all accesses to `ptr` below): The backing is mutably borrowed for 'a and only
-// accessible through the two handles. These cannot leave their thread, and no reference to the
-// backing outlives a single access. So this reference is the only one.
-
 impl<Backing: BitGet> BitGet for SplitMut<'_, Backing> {
     #[inline]
     unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
-        self.ptr.as_ref().get_bit_unchecked(index)
+        self.backing.borrow().get_bit_unchecked(index)
     }
 
     #[inline]
     fn get_bit(&self, index: usize) -> bool {
-        unsafe { self.ptr.as_ref() }.get_bit(index)
+        self.backing.borrow().get_bit(index)
     }
 }
 
 impl<Backing: BitModify> BitModify for SplitMut<'_, Backing> {
     #[inline]
     unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {
-        self.ptr.as_mut().set_bit_unchecked(index, value)
+        self.backing.borrow_mut().set_bit_unchecked(index, value)
     }
 
     #[inline]
     fn set_bit(&mut self, index: usize, value: bool) {
-        unsafe { self.ptr.as_mut() }.set_bit(index, value)
+        self.backing.borrow_mut().set_bit(index, value)
     }
 
     #[inline]
     unsafe fn flip_bit_unchecked(&mut self, index: usize) {
-        self.ptr.as_mut().flip_bit_unchecked(index)
+        self.backing.borrow_mut().flip_bit_unchecked(index)
     }
 
     #[inline]
     fn flip_bit(&mut self, index: usize) {
-        unsafe { self.ptr.as_mut() }.flip_bit(index)
+        self.backing.borrow_mut().flip_bit(index)
     }
 }
 
 impl<Backing: Debug> Debug for SplitMut<'_, Backing> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        unsafe { self.ptr.as_ref() }.fmt(f)
+        self.backing.borrow().fmt(f)
     }
 }
-- 
2.43.0


From 1d53b214bce40c75c1a48a777d65271839dfaa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:46 +0000
Subject: [PATCH 12/15] fix: keep the removal of profiles below the current
 directory

The task followed linked directories and deleted files outside, and stopped
half-way at directories that are named like profiles.
---
 xtask/src/main.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/xtask/src/main.rs b/xtask/src/main.rs
index 86baa61..fed87eb 100644
--- a/xtask/src/main.rs
+++ b/xtask/src/main.rs
@@ -1,5 +1,6 @@
-use std::fs::create_dir_all;
-use xtaskops::ops::{clean_files, cmd};
+use std::fs::{create_dir_all, read_dir, remove_file};
+use std::path::Path;
+use xtaskops::ops::cmd;
 
 fn main() -> Result<(), anyhow::Error> {
     match std::env::args().nth(1).as_deref() {
@@ -100,7 +101,20 @@ fn cover_only() -> Result<(), anyhow::Error> {
 
 fn clean() -> Result<(), anyhow::Error> {
     println!("=== cleaning up ===");
-    clean_files("**/*.profraw")?;
+    remove_profiles(Path::new("."))?;
     println!("ok.");
     Ok(())
 }
+
+/// Removes all profiles below a directory. Links to other directories are not followed.
+fn remove_profiles(dir: &Path) -> Result<(), anyhow::Error> {
+    for entry in read_dir(dir)? {
+        let entry = entry?;
+        if entry.file_type()?.is_dir() {
+            remove_profiles(&entry.path())?;
+        } else if entry.file_name().as_encoded_bytes().ends_with(b".profraw") {
+            remove_file(entry.path())?;
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From b803d26bc6e85e59258fdfd0a4c3c066c8529710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:15 +0000
Subject: [PATCH 13/15] fix: reject bit vectors that end after their last word

The content of a BitVec can be replaced by a slice with bounds far beyond its
words. Building a rank data structure for it allocated memory for these bounds,
which aborted the process.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index ebcafa0..df93623 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -76,6 +76,10 @@ impl<'a, T> FlatPopcount<'a, T> {
             }
         }
 
+        if (backing.start() + backing.len()).div_ceil(64) > backing.raw().len() {
+            panic!("the bit vector ends after its last word")
+        }
+
         // The indices are built for the words, so bits before the start count as well
         let n = backing.start() + backing.len();
         let log_n = n.ilog2() as usize + 1;
-- 
2.43.0


From b578968a1bea2698f41f64c287fe1c8697284483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:15 +0000
Subject: [PATCH 14/15] fix: reject capacities that overflow

The number of bits for a huge capacity wrapped around in release builds and
panicked in debug builds.
---
 succinct_neo/src/int_vec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 42207e3..3716ad9 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -24,7 +24,7 @@ impl IntVec {
         if width == 0 || width > block_size {
             panic!("width is {width} but must be in 1..={block_size}")
         }
-        let num_blocks = (capacity * width) / block_size;
+        let num_blocks = capacity.checked_mul(width).expect("capacity overflow") / block_size;
 
         let mut temp = Self {
             data: Vec::with_capacity(num_blocks),
-- 
2.43.0


From 95855deec0daed0e6e7a7c171974f0cae7a22283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:15 +0000
Subject: [PATCH 15/15] fix: accept task arguments and a grcov path that are
 not unicode

Such an argument ended the task with a panic, and such a path was ignored.
---
 xtask/src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xtask/src/main.rs b/xtask/src/main.rs
index fed87eb..d5b956b 100644
--- a/xtask/src/main.rs
+++ b/xtask/src/main.rs
@@ -1,9 +1,10 @@
+use std::ffi::OsStr;
 use std::fs::{create_dir_all, read_dir, remove_file};
 use std::path::Path;
 use xtaskops::ops::cmd;
 
 fn main() -> Result<(), anyhow::Error> {
-    match std::env::args().nth(1).as_deref() {
+    match std::env::args_os().nth(1).as_deref().and_then(OsStr::to_str) {
         Some("cover") => cover(),
         Some("test_instr") => test_instr(),
         Some("cover_only") => cover_only(),
@@ -33,10 +34,9 @@ fn test_instr() -> Result<(), anyhow::Error> {
 fn cover_only() -> Result<(), anyhow::Error> {
     create_dir_all("coverage")?;
 
-    let (fmt, file_ext) = match std::env::args()
+    let (fmt, file_ext) = match std::env::args_os()
         .nth(2)
-        .as_deref()
-        .map(str::to_ascii_lowercase)
+        .map(|arg| arg.to_string_lossy().to_ascii_lowercase())
         .as_deref()
     {
         Some("xml") | Some("cobertura") => ("cobertura", "xml"),
@@ -52,7 +52,7 @@ fn cover_only() -> Result<(), anyhow::Error> {
 
     println!("=== outputting format '{fmt}' ===");
 
-    let grcov_bin = std::env::var("GRCOV").unwrap_or_else(|_| "grcov".to_string());
+    let grcov_bin = std::env::var_os("GRCOV").unwrap_or_else(|| "grcov".into());
 
     match cmd!(&grcov_bin, "--version").run() {
         Ok(_) => {}
-- 
2.43.0

