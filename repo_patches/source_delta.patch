From 8708d7ad8fca927807c188a3800f503d2a42e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 1/8] fix: DynamicStorage2D::zeroed allocates exactly the bytes
 its depth needs

For depths divisible by four it allocated one byte too many, so a zeroed index
compared unequal to the same index built from cells and lost its cells when
converted to a fixed-depth index.
---
 src/indices/morton_index_2d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..405cf39 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -622,8 +622,9 @@ pub struct DynamicStorage2D {
 
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
+        let num_bytes = (depth + 3) / 4;
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; num_bytes],
             depth,
         }
     }
-- 
2.43.0


From ccc63378b8dc4f16434c5932f805a1bf991e138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 2/8] fix: keep cells when converting a shallow dynamic index
 to a fixed-depth index

The raw bytes of a dynamic index that needs fewer bytes than the fixed storage
ended up in the low bytes, i.e. at the deepest levels, instead of at the root.
---
 src/indices/morton_index_2d.rs | 27 ++++++++++++++-------------
 src/indices/morton_index_3d.rs | 27 ++++++++++++++-------------
 2 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 405cf39..26859e2 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -870,18 +870,19 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // The dynamic index may use fewer bytes than `B`, so its cells have to be placed level by level, which leaves
+            // the remaining levels zero-filled
+            let mut ret: MortonIndex2D<FixedDepthStorage2D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..903f3a6 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -9,7 +9,7 @@ use nalgebra::Vector3;
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
     number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
+        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits,
     },
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -934,18 +934,19 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // The dynamic index may use fewer bytes than `B`, so its cells have to be placed level by level, which leaves
+            // the remaining levels zero-filled
+            let mut ret: MortonIndex3D<FixedDepthStorage3D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From 91ef856ba710b885fe7394373d7b048e968ef7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 3/8] fix: allow a grid_depth of zero in
 StaticMortonIndex2D128::from_grid_index

The shift distance is 64 in that case, which overflows a usize shift.
---
 src/indices/morton_index_2d.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 26859e2..82ad637 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -162,11 +162,15 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
 
         // the grid_depth is equal to the number of valid bits in the X and Y fields of grid_index
         // There is an explanation for the shifting in the corresponding implementation for the 3D case
-        // in `morton_index_3d.rs`
+        // in `morton_index_3d.rs`. For 64 levels and a grid_depth of zero the shift is as wide as usize, hence `checked_shl`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
+        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From a1dd7a6e0a1701b8984e3e20db806db0a4d71c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 4/8] fix: StaticMortonIndex3D::from_grid_index dropped the
 deepest levels

MAX_LEVELS is not a multiple of 8 for the 3D storage types, so the number of
chunks computed from grid_depth alone could miss the least significant ones.
---
 src/indices/morton_index_3d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 903f3a6..ea031e3 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -353,9 +353,10 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
+        // The most significant chunk is only partially filled if MAX_LEVELS is not divisible by 8, so the first chunk is
+        // determined by the lowest bit that belongs to a level of this index
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From 2587429a89dcf454ebbf9abd2399f167618233cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 5/8] fix: Vec<u8>::get_bits leaked bits from behind the
 requested range

The last byte was masked only after its low bits had been carried over to the
previous byte.
---
 src/number.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..13e8767 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -320,19 +320,20 @@ impl Bits for Vec<u8> {
 
         let mut bytes = self[start_byte..end_byte].to_owned();
         for idx in 0..bytes.len() {
-            if idx > 0 && shift_within_byte > 0 {
-                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
-                // previous byte
-                let carry = bytes[idx].get_bits(0..shift_within_byte);
-                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
-            }
             if idx == bytes.len() - 1 {
-                // Mask away the upper bits outside of the requested range on the last byte
+                // Mask away the upper bits outside of the requested range on the last byte. This has to happen before bits
+                // of the last byte are carried over to the previous byte
                 let excess_bits = (end_byte * 8) - bit_range.end;
                 // There can never be overflow here, because excess_bits always will be less than 8!
                 let mask = 0xFF_u8 >> excess_bits;
                 bytes[idx] &= mask;
             }
+            if idx > 0 && shift_within_byte > 0 {
+                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
+                // previous byte
+                let carry = bytes[idx].get_bits(0..shift_within_byte);
+                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
+            }
             bytes[idx] >>= shift_within_byte;
         }
 
-- 
2.43.0


From f6945572d673eaba8445aa8178136bea456b2a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 6/8] fix: align_to overflowed for values whose aligned result
 is representable

self + alignment - 1 can exceed the type's maximum although the next multiple of
the alignment does not, e.g. 255_u8.align_to(5).
---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..53c80d0 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 501682505ae63860a98dfd447d07f5de2bbd7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:20 +0000
Subject: [PATCH 7/8] fix: from_raw_index kept bits that belong to no level

Indices with the same depth and cells compared unequal (and hashed differently)
when the raw bits had unused bits set, and a StaticMortonIndex3D with more levels
than its storage holds could be created.
---
 src/indices/morton_index_3d.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index ea031e3..2bdceb0 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -232,10 +232,15 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
         }
     }
 
-    /// Creates a new MortonIndex3D from the raw bits of an index
+    /// Creates a new MortonIndex3D from the raw bits of an index. Bits of `index` that don't belong to any level are ignored
     pub fn from_raw_index(index: B) -> Self {
+        let mut bits = index;
+        // The unused bits at the end always have to be zero, otherwise indices with identical cells would compare unequal
+        unsafe {
+            bits.set_bits(0..(B::BITS % Dim3D::DIMENSIONALITY), B::default());
+        }
         Self {
-            storage: FixedDepthStorage3D { bits: index },
+            storage: FixedDepthStorage3D { bits },
         }
     }
 }
@@ -383,10 +388,26 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         })
     }
 
-    /// Creates a new MortonIndex3D from the raw bits of an index with `depth`
+    /// Creates a new MortonIndex3D from the raw bits of an index with `depth`. Bits of `index` that don't belong to any of the
+    /// first `depth` levels are ignored
+    ///
+    /// # Panics
+    ///
+    /// If `depth` is larger than the maximum depth of the `StaticStorage3D<B>`
     pub fn from_raw_index(index: B, depth: u8) -> Self {
+        if depth as usize > Self::MAX_LEVELS {
+            panic!("depth must not be > Self::MAX_LEVELS");
+        }
+        let mut bits = index;
+        // The bits below the last level always have to be zero, otherwise indices with identical cells would compare unequal
+        unsafe {
+            bits.set_bits(
+                0..(B::BITS - depth as usize * Dim3D::DIMENSIONALITY),
+                B::default(),
+            );
+        }
         Self {
-            storage: StaticStorage3D { bits: index, depth },
+            storage: StaticStorage3D { bits, depth },
         }
     }
 }
-- 
2.43.0


From 62ebf7eece61f1d0c483ad9ebf54070f92da16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:07 +0000
Subject: [PATCH 8/8] fix: add_zero_*_every_bit_* only consider the documented
 low bits

---
 src/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 13e8767..98c8ceb 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -477,7 +477,7 @@ pub fn add_zero_behind_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 4 bits of `val` and adds a zero before every bit.
 /// For example `0b1101` becomes `0b01_01_00_01`
 pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
-    let mut ret = val;
+    let mut ret = val & 0b1111;
     ret = (ret | (ret << 2)) & 0b00110011;
     ret = (ret | (ret << 1)) & 0b01010101;
     ret
@@ -486,7 +486,7 @@ pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 8 bits of `val` and adds a zero before every bit. This is the `u16` version of
 /// `add_zero_before_every_bit_u8`
 pub fn add_zero_before_every_bit_u16(val: u16) -> u16 {
-    let mut ret = val;
+    let mut ret = val & 0xFF;
     ret = (ret | (ret << 4)) & 0b00001111_00001111;
     ret = (ret | (ret << 2)) & 0b00110011_00110011;
     ret = (ret | (ret << 1)) & 0b01010101_01010101;
-- 
2.43.0

