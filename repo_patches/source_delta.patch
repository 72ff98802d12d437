From 509912458e155ce44d1226d28f4e8d2f669cfeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:40 +0000
Subject: [PATCH 1/9] fix: keep rank queries inside the bit vector

A rank query at the end of a bit vector whose length is a multiple of 64
read one word past the storage. A query on an empty bit vector or with an
index greater than the length read past the index.

The query at the end now skips the missing word, an empty bit vector has
rank 0, and indices greater than the length panic.
---
 .../src/rank_select/flat_popcount/mod.rs         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..18eb6ec 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,6 +215,14 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index > self.len() {
+            panic!("index is {index} but length is {}", self.len())
+        }
+        // There is no index entry to look at if the bit vector is empty
+        if self.is_empty() {
+            return 0;
+        }
+
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -233,10 +241,10 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
             ones += unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as usize };
         }
 
-        // Add the rest bits
-        unsafe {
-            ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
-                .count_ones() as usize
+        // Add the rest bits. If there are none, the word might not exist
+        if rest_bits > 0 {
+            ones += unsafe { (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
+                .count_ones() as usize }
         }
 
         if TARGET {
-- 
2.43.0


From 9f6afa6d3676c1d4667c2f4813c2ad482432ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:40 +0000
Subject: [PATCH 2/9] fix: keep select queries inside the index

Selecting a one in the last L1 block read an index entry past the end.
Selecting with a rank equal to the number of ones searched past the end of
the bit vector instead of returning None.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 18eb6ec..3d4731b 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -257,15 +257,18 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
         // SAFETY: The data in sampled_ones should be correct, so this must work too
         let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-        while l1 <= rank && l1_index < self.l1_index.len() {
+        while l1 <= rank {
             l1_index += 1;
+            if l1_index == self.l1_index.len() {
+                break;
+            }
             l1 = unsafe { self.l1(l1_index) };
         }
         l1_index -= 1;
-- 
2.43.0


From b9f4e30d215b448064dc477e49cf1aa67b7bea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:40 +0000
Subject: [PATCH 3/9] fix: read L1 index entries independently of endianness

Select read the upper half of an L1 entry through a pointer cast that picks
the lower half on big endian targets.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 3d4731b..33cea59 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -209,7 +209,7 @@ impl<'a, T> FlatPopcount<'a, T> {
 
     #[inline]
     unsafe fn l1(&self, l1_index: usize) -> usize {
-        *((self.l1_index.get_unchecked(l1_index) as *const u128 as *const usize).offset(1)) >> 20
+        (*self.l1_index.get_unchecked(l1_index) >> 84) as usize
     }
 }
 
-- 
2.43.0


From 97b4e1b655a90f785a15cab78bca85707b64900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:40 +0000
Subject: [PATCH 4/9] fix: export SelectSupport

The trait was never re-exported, so select queries could not be called from
outside of the crate.
---
 succinct_neo/src/rank_select/mod.rs    | 2 +-
 succinct_neo/src/rank_select/traits.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
diff --git a/succinct_neo/src/rank_select/traits.rs b/succinct_neo/src/rank_select/traits.rs
index 922a2fb..bf0749f 100644
--- a/succinct_neo/src/rank_select/traits.rs
+++ b/succinct_neo/src/rank_select/traits.rs
@@ -91,7 +91,7 @@ pub trait RankSupport {
 pub trait SelectSupport<const TARGET: bool> {
     /// Calculates the index of the nth time the given value shows up.
     ///
-    /// If [`TARGET`] is `true`, this will search for the nth one, if it is `false`, this will
+    /// If `TARGET` is `true`, this will search for the nth one, if it is `false`, this will
     /// search for zeroes.
     ///
     /// # Arguments
-- 
2.43.0


From 2f696e3b64fded133583607333233850262e8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:40 +0000
Subject: [PATCH 5/9] fix: reject slice bounds that overflow

Without overflow checks, an excluded start bound or an included end bound of
usize::MAX wrapped to 0, so an invalid range produced a slice instead of a
panic.
---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..d4468e8 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound overflows"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound overflows"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound overflows"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound overflows"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0


From e1462eb772f8a900ef5365778b649d4c294eb9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:29 +0000
Subject: [PATCH 6/9] fix: report exact size hints

The iterators implement ExactSizeIterator but kept the default size hint, so
adapters that derive their length from the hint (for example take) panicked
when asked for it.
---
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 4 ++++
 succinct_neo/src/int_vec/mod.rs               | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 95a3015..81b8559 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -62,6 +62,10 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         self.current += 1;
         Some(v)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..9818634 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -200,6 +200,10 @@ impl Iterator for IntoIter {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for IntoIter {
@@ -225,6 +229,10 @@ impl Iterator for Iter<'_> {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl ExactSizeIterator for Iter<'_> {
-- 
2.43.0


From 4d92ad38a6eea3e2fca683b069f2ce7b6adf4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:29 +0000
Subject: [PATCH 7/9] fix: compute the number of words without rounding

Going through f64 rounds sizes greater than 2^53, which can allocate fewer
words than the bit vector needs.
---
 succinct_neo/src/bit_vec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/mod.rs b/succinct_neo/src/bit_vec/mod.rs
index 789e891..6120a44 100644
--- a/succinct_neo/src/bit_vec/mod.rs
+++ b/succinct_neo/src/bit_vec/mod.rs
@@ -70,7 +70,7 @@ impl BitVec {
     /// let bv = BitVec::new(16);
     /// ```
     pub fn new(size: usize) -> Self {
-        let v = vec![0usize; (size as f64 / WORD_SIZE as f64).ceil() as usize];
+        let v = vec![0usize; size.div_ceil(WORD_SIZE)];
         let b = v.into_boxed_slice();
         Self {
             data: BitSlice::new(b, 0, size),
-- 
2.43.0


From abc9e085885aad061c977584ba108001573a8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:29 +0000
Subject: [PATCH 8/9] fix: support integers as wide as a block

An IntVec with 64 bit integers could be created, but pushing to it or reading
from it overflowed a shift. Widths that do not fit into a block were accepted
as well and corrupted the stored integers. Those are now rejected when the
vector is created.
---
 succinct_neo/src/int_vec/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 9818634..4664606 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -21,6 +21,9 @@ impl IntVec {
     #[inline]
     pub fn with_capacity(width: usize, capacity: usize) -> Self {
         let block_size = Self::block_width();
+        if width == 0 || width > block_size {
+            panic!("width must be between 1 and {block_size} but is {width}")
+        }
         let num_blocks = (capacity * width) / block_size;
 
         let mut temp = Self {
@@ -41,7 +44,7 @@ impl IntVec {
 
     #[inline]
     const fn mask(&self) -> usize {
-        (1 << self.width) - 1
+        usize::MAX >> (Self::block_width() - self.width)
     }
 
     /// Calculates the current offset inside the last used block where the next integer would be
@@ -52,13 +55,18 @@ impl IntVec {
     }
 
     pub fn push(&mut self, v: usize) {
-        if v >= (1 << self.width) {
+        if v > self.mask() {
             panic!("value too large for {}-bit integer", self.width)
         }
         let offset = self.current_offset();
         let mask = self.mask();
         if offset == 0 {
             *self.data.last_mut().unwrap() |= v & mask;
+            // A full block leaves no space for the next integer
+            if self.width == Self::block_width() {
+                self.data.push(0);
+                self.capacity = self.data.capacity();
+            }
             self.size += 1;
             return;
         }
@@ -115,7 +123,7 @@ impl IntAccess for IntVec {
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             let remaining_bits = self.width - fitting_bits;
             let lo = self.data[index_block] >> index_offset;
@@ -124,7 +132,7 @@ impl IntAccess for IntVec {
             return (hi << fitting_bits) | lo;
         }
 
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         (self.data[index_block] >> index_offset) & mask
     }
 
@@ -132,20 +140,20 @@ impl IntAccess for IntVec {
         if index >= self.len() {
             panic!("length is {} but index is {index}", self.len())
         }
-        if value >= (1 << self.width) {
+        if value > self.mask() {
             panic!("value {value} too large for {}-bit integer", self.width)
         }
         unsafe { self.set_unchecked(index, value) }
     }
 
     unsafe fn set_unchecked(&mut self, index: usize, value: usize) {
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         let value = value & mask;
         let index_block = (index * self.width) / Self::block_width();
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             unsafe {
                 let lower_block = self.data.get_unchecked_mut(index_block);
-- 
2.43.0


From 0ef7f40cb47bceee4905e089b834682915e5abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:05 +0000
Subject: [PATCH 9/9] fix: count L2 blocks without overflow

The block counter fell back to i32, so building the index of a vector with
more than 2^40 bits overflowed.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 33cea59..a501a99 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -94,7 +94,7 @@ impl<'a, T> FlatPopcount<'a, T> {
         let raw_bv = self.backing.raw();
 
         let mut current_l1 = 0u128;
-        let mut i = 0;
+        let mut i = 0usize;
         for l2_block in raw_bv.chunks(8) {
             let offset = i & 0b0111;
             // In this case this is the last L2 block of this L1 block and we don't store its
-- 
2.43.0

