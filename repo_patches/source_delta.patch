From 9fa8ecc551820057eb1b531fc9555c3498021958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 1/5] fix: DynamicStorage2D::zeroed allocates no surplus byte

A zeroed dynamic index whose depth is a multiple of four got one byte more than
every other constructor allocates, so it compared unequal to an index with the same
cells, and ancestor() kept cells of the wrong levels.
---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..3fb0108 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,7 +623,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From 3421e814ad6751ea78c91e7ad1c2455a5d03fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 2/5] fix: dynamic to fixed conversion keeps the cells at their
 levels

The conversion padded the little-endian bytes of a dynamic index at the wrong end, so an index
with fewer bytes than the fixed storage came out with its cells at deeper levels.
---
 src/indices/morton_index_2d.rs | 25 ++++++++++++-------------
 src/indices/morton_index_3d.rs | 27 ++++++++++++---------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 3fb0108..41ae9b0 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -869,18 +869,17 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            let mut ret: MortonIndex2D<FixedDepthStorage2D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..f9e94f2 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -8,9 +8,7 @@ use nalgebra::Vector3;
 
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
-    number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
-    },
+    number::{add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits},
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
 };
@@ -934,18 +932,17 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            let mut ret: MortonIndex3D<FixedDepthStorage3D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From 2a103446af6e485d62497ecf0853b086cacb7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 3/5] fix: static 3D from_grid_index transfers all bits of the
 grid index

The number of chunks was computed from the grid depth alone, although the bits are shifted
up to MAX_LEVELS, which is no multiple of 8: the lowest cells came out as zero.
---
 src/indices/morton_index_3d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index f9e94f2..c55b817 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -351,9 +351,10 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
+        // The lowest valid bit sits at `shift_to_max_bits`. MAX_LEVELS is not a multiple of 8 in general, so the valid bits
+        // can reach into one chunk more than `grid_depth` bits alone would need
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From bd70431f98b022b7ea4d1bea81a9f250c606a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 4/5] fix: static 2D from_grid_index of depth zero does not
 overflow

With 128-bit storage the root node was shifted by the full width of usize, which panics
wherever overflow checks are on.
---
 src/indices/morton_index_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41ae9b0..82f5a82 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,10 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        // For the root of a 128-bit index, the shift is as wide as a usize, and there are no bits to shift
+        let shift_up = |bits: usize| bits.checked_shl(shift_to_max_bits as u32).unwrap_or(0);
+        let x_bits = shift_up(unsafe { grid_index.x.get_bits(0..grid_depth) });
+        let y_bits = shift_up(unsafe { grid_index.y.get_bits(0..grid_depth) });
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From b4b324caa7d71cfbaa44baa767c19d3b3cc13af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 5/5] fix: from_raw_index clears the bits that belong to no
 cell

Equality and hashing rely on these bits being zero: indices made from raw bits with the same
depth and cells compared unequal, and converting such a static index to fixed storage turned
the surplus bits into cells.
---
 src/indices/morton_index_3d.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index c55b817..3dc42d6 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -231,7 +231,11 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
     }
 
     /// Creates a new MortonIndex3D from the raw bits of an index
-    pub fn from_raw_index(index: B) -> Self {
+    pub fn from_raw_index(mut index: B) -> Self {
+        // The lowest bits belong to no cell and have to be zero, otherwise equal indices would compare unequal
+        unsafe {
+            index.set_bits(0..(B::BITS % Dim3D::DIMENSIONALITY), B::default());
+        }
         Self {
             storage: FixedDepthStorage3D { bits: index },
         }
@@ -382,7 +386,14 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
     }
 
     /// Creates a new MortonIndex3D from the raw bits of an index with `depth`
-    pub fn from_raw_index(index: B, depth: u8) -> Self {
+    pub fn from_raw_index(mut index: B, depth: u8) -> Self {
+        // The bits below the last cell have to be zero, otherwise equal indices would compare unequal
+        let used_bits = depth as usize * Dim3D::DIMENSIONALITY;
+        if used_bits < B::BITS {
+            unsafe {
+                index.set_bits(0..(B::BITS - used_bits), B::default());
+            }
+        }
         Self {
             storage: StaticStorage3D { bits: index, depth },
         }
-- 
2.43.0

