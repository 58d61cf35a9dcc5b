use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

use nalgebra::Vector2;

use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
use crate::{
    CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
    StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
};

/// A 2D Morton index with a fixed depth of 4 levels (using a single `u8` value as storage)
pub type FixedDepthMortonIndex2D8 = MortonIndex2D<FixedDepthStorage2D<u8>>;
/// A 2D Morton index with a fixed depth of 8 levels (using a single `u16` value as storage)
pub type FixedDepthMortonIndex2D16 = MortonIndex2D<FixedDepthStorage2D<u16>>;
/// A 2D Morton index with a fixed depth of 16 levels (using a single `u32` value as storage)
pub type FixedDepthMortonIndex2D32 = MortonIndex2D<FixedDepthStorage2D<u32>>;
/// A 2D Morton index with a fixed depth of 32 levels (using a single `u64` value as storage)
pub type FixedDepthMortonIndex2D64 = MortonIndex2D<FixedDepthStorage2D<u64>>;
/// A 2D Morton index with a fixed depth of 64 levels (using a single `u128` value as storage)
pub type FixedDepthMortonIndex2D128 = MortonIndex2D<FixedDepthStorage2D<u128>>;
/// A 2D Morton index with variable depth, but a statically-determined maximum depth of 4 levels (using a single `u8` value as storage)
pub type StaticMortonIndex2D8 = MortonIndex2D<StaticStorage2D<u8>>;
/// A 2D Morton index with variable depth, but a statically-determined maximum depth of 8 levels (using a single `u16` value as storage)
pub type StaticMortonIndex2D16 = MortonIndex2D<StaticStorage2D<u16>>;
/// A 2D Morton index with variable depth, but a statically-determined maximum depth of 16 levels (using a single `u32` value as storage)
pub type StaticMortonIndex2D32 = MortonIndex2D<StaticStorage2D<u32>>;
/// A 2D Morton index with variable depth, but a statically-determined maximum depth of 32 levels (using a single `u64` value as storage)
pub type StaticMortonIndex2D64 = MortonIndex2D<StaticStorage2D<u64>>;
/// A 2D Morton index with variable depth, but a statically-determined maximum depth of 64 levels (using a single `u128` value as storage)
pub type StaticMortonIndex2D128 = MortonIndex2D<StaticStorage2D<u128>>;
/// A 2D Morton index with variable depth. It uses a `Vec` as storage and can represent an unlimited number of cells
pub type DynamicMortonIndex2D = MortonIndex2D<DynamicStorage2D>;

/// A 2D Morton index. This represents a single node inside a quadtree. The depth of the node and the maximum storage
/// capacity of this type depend on the generic `Storage` type
#[derive(Default, Debug, PartialOrd, Ord, PartialEq, Eq, Hash)]
pub struct MortonIndex2D<S: Storage<Dim2D>> {
    storage: S,
}

impl<S: Storage<Dim2D> + Clone> Clone for MortonIndex2D<S> {
    fn clone(&self) -> Self {
        Self {
            storage: self.storage.clone(),
        }
    }
}

impl<S: Storage<Dim2D> + Copy> Copy for MortonIndex2D<S> {}

impl<'a, S: Storage<Dim2D> + 'a> MortonIndex2D<S>
where
    &'a S: IntoIterator<Item = Quadrant>,
{
    pub fn cells(&'a self) -> <&'a S as IntoIterator>::IntoIter {
        self.storage.into_iter()
    }
}

impl<S: VariableDepthStorage<Dim2D>> VariableDepthMortonIndex for MortonIndex2D<S> {
    fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        self.storage
            .ancestor(generations)
            .map(|storage| Self { storage })
    }

    fn descendant(
        &self,
        cells: &[<Self::Dimension as crate::dimensions::Dimension>::Cell],
    ) -> Option<Self> {
        self.storage
            .descendant(cells)
            .map(|storage| Self { storage })
    }
}

impl<B: FixedStorageType> MortonIndex2D<FixedDepthStorage2D<B>> {
    /// Creates a new MortonIndex2D with fixed-depth storage from the given 2D grid index. The `grid_index` is assumed to
    /// represent a grid with a depth equal to `FixedDepthStorage2D<B>::MAX_LEVELS`.
    ///
    /// # Panics
    ///
    /// There is an edge-case in which the fixed depth of the `FixedDepthStorage2D<B>` is greater than what a single `usize`
    /// value in the `grid_index` can represent. In this case the code will panic.
    pub fn from_grid_index(
        grid_index: <Dim2D as Dimension>::GridIndex,
        ordering: QuadrantOrdering,
    ) -> Self {
        let fixed_depth = <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS;
        if fixed_depth > (std::mem::size_of::<usize>() * 8) {
            panic!(
                "Size of usize is too small for a fixed depth of {}",
                fixed_depth
            );
        }
        // Similar construction as compared to static storage, but we have a fixed depth

        let x_bits = unsafe { grid_index.x.get_bits(0..fixed_depth) };
        let y_bits = unsafe { grid_index.y.get_bits(0..fixed_depth) };

        let (lower_bits, higher_bits) = match ordering {
            QuadrantOrdering::XY => (x_bits, y_bits),
            QuadrantOrdering::YX => (y_bits, x_bits),
        };

        let mut bits = B::default();
        // Set bits in 8-bit chunks at a time
        let num_chunks = (fixed_depth + 3) / 4;
        for chunk_index in 0..num_chunks {
            let start_bit = chunk_index * 4;
            let end_bit = start_bit + 4;
            let lower_chunk = unsafe { lower_bits.get_bits(start_bit..end_bit) as u8 };
            let higher_chunk = unsafe { higher_bits.get_bits(start_bit..end_bit) as u8 };
            let chunk = add_zero_before_every_bit_u8(lower_chunk)
                | add_zero_behind_every_bit_u8(higher_chunk);
            unsafe {
                bits.set_bits(
                    (chunk_index * 8)..((chunk_index + 1) * 8),
                    B::from_u8(chunk),
                );
            }
        }

        Self {
            storage: FixedDepthStorage2D { bits },
        }
    }
}

impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
    /// Returns a Morton index with the given `depth` where all cells are zeroed (i.e. representing `Quadrant::Zero`). If
    /// the `depth` is larger than the maximum depth of the `StaticStorage2D<B>`, `None` is returned
    pub fn zeroed(depth: u8) -> Option<Self> {
        if depth as usize > <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS {
            return None;
        }
        Some(Self {
            storage: StaticStorage2D::<B> {
                bits: Default::default(),
                depth,
            },
        })
    }

    /// Creates a new MortonIndex2D with static storage from the given 2D grid index. The `grid_depth` parameter
    /// describes the 'depth' of the grid as per the equation: `N = 2 ^ grid_depth`, where `N` is the number of cells
    /// per axis in the grid. For example, a `32*32` grid has a `grid_depth` of `log2(32) = 5`. If `2 * grid_depth`
    /// exceeds the capacity of the static storage type `B`, this returns an error.
    pub fn from_grid_index(
        grid_index: <Dim2D as Dimension>::GridIndex,
        grid_depth: usize,
        ordering: QuadrantOrdering,
    ) -> Result<Self, crate::Error> {
        if grid_depth > (B::BITS / 2) {
            return Err(crate::Error::DepthLimitedExceeded {
                max_depth: B::BITS / 2,
            });
        }

        // the grid_depth is equal to the number of valid bits in the X and Y fields of grid_index
        // There is an explanation for the shifting in the corresponding implementation for the 3D case
        // in `morton_index_3d.rs`. For 64 levels and a grid_depth of zero the shift is as wide as usize, hence `checked_shl`
        let shift_to_max_bits =
            <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) }
            .checked_shl(shift_to_max_bits as u32)
            .unwrap_or(0);
        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) }
            .checked_shl(shift_to_max_bits as u32)
            .unwrap_or(0);

        let (lower_bits, higher_bits) = match ordering {
            QuadrantOrdering::XY => (x_bits, y_bits),
            QuadrantOrdering::YX => (y_bits, x_bits),
        };

        let mut bits = B::default();
        // Set bits in 8-bit chunks at a time
        let num_chunks = (grid_depth + 3) / 4;
        let max_chunks = (<FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS + 3) / 4;
        let chunk_start = max_chunks - num_chunks;
        for chunk_index in (chunk_start..max_chunks).rev() {
            let start_bit = chunk_index * 4;
            let end_bit = start_bit + 4;
            let lower_chunk = unsafe { lower_bits.get_bits(start_bit..end_bit) as u8 };
            let higher_chunk = unsafe { higher_bits.get_bits(start_bit..end_bit) as u8 };
            let chunk = add_zero_before_every_bit_u8(lower_chunk)
                | add_zero_behind_every_bit_u8(higher_chunk);

            // chunk contains 8 valid bits at most
            let start_bit = chunk_index * 8;
            let end_bit = start_bit + 8;
            unsafe {
                bits.set_bits(start_bit..end_bit, B::from_u8(chunk));
            }
        }

        Ok(Self {
            storage: StaticStorage2D {
                bits,
                depth: grid_depth as u8,
            },
        })
    }
}

impl MortonIndex2D<DynamicStorage2D> {
    pub fn zeroed(depth: usize) -> Self {
        Self {
            storage: DynamicStorage2D::zeroed(depth),
        }
    }

    /// Creates a new MortonIndex2D with dynamic storage from the given 2D grid index. The `grid_depth` parameter
    /// describes the 'depth' of the grid as per the equation: `N = 2 ^ grid_depth`, where `N` is the number of cells
    /// per axis in the grid. For example, a `32*32` grid has a `grid_depth` of `log2(32) = 5`.
    pub fn from_grid_index(
        grid_index: <Dim2D as Dimension>::GridIndex,
        grid_depth: usize,
        ordering: QuadrantOrdering,
    ) -> Self {
        let max_bits = std::mem::size_of_val(&grid_index.x) * 8;
        if grid_depth > (max_bits / 2) {
            panic!(
                "2 * grid_depth ({}) must not exceed maximum number of bits ({}) in the grid index",
                grid_depth, max_bits
            );
        }
        // the grid_depth is equal to the number of valid bits in the X and Y fields of grid_index
        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) };
        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) };

        let (lower_bits, higher_bits) = match ordering {
            QuadrantOrdering::XY => (x_bits, y_bits),
            QuadrantOrdering::YX => (y_bits, x_bits),
        };

        // Expand bits by 2, then interleave. We do this in 4-bit chunks to prevent overflow
        let num_chunks = (grid_depth + 3) / 4;
        Self {
            storage: DynamicStorage2D {
                bits: (0..num_chunks)
                    .map(|chunk_index| {
                        // Same weird calculation as with StaticStorage2D, see lengthy comment there for explanation
                        let end_bit = grid_depth - (chunk_index * 4);
                        let start_bit = end_bit.saturating_sub(4);
                        let lower_chunk = unsafe { lower_bits.get_bits(start_bit..end_bit) as u8 };
                        let higher_chunk =
                            unsafe { higher_bits.get_bits(start_bit..end_bit) as u8 };
                        let chunk = add_zero_before_every_bit_u8(lower_chunk)
                            | add_zero_behind_every_bit_u8(higher_chunk);
                        // To get correct chunks with bit counts not divisible by 4, we have to set the right bits
                        // in the u8 value (similar to what we do in StaticStorage2D)
                        let bits_in_current_chunk = end_bit - start_bit;
                        let end_bit_in_index = 8;
                        let start_bit_in_index = end_bit_in_index - 2 * bits_in_current_chunk;
                        let mut bits: u8 = 0;
                        unsafe {
                            // Maybe set the bits in BigEndian instead ?! Might require mirroring the bits of 'chunk'...
                            // Now everything is weird, the 'less-depth' thing works, but not the one with full depth?!?!
                            // Maybe use a simple implementation with 'set_cell_at_level_unchecked' as a reference?
                            bits.set_bits(start_bit_in_index..end_bit_in_index, chunk);
                        }
                        bits
                    })
                    .rev()
                    .collect(),
                depth: grid_depth,
            },
        }
    }
}

impl<'a, S: Storage<Dim2D> + TryFrom<&'a [Quadrant], Error = crate::Error>> TryFrom<&'a [Quadrant]>
    for MortonIndex2D<S>
{
    type Error = crate::Error;

    fn try_from(value: &'a [Quadrant]) -> Result<Self, Self::Error> {
        S::try_from(value).map(|storage| Self { storage })
    }
}

impl<'a, S: Storage<Dim2D> + TryFrom<[Quadrant; N], Error = crate::Error>, const N: usize>
    TryFrom<[Quadrant; N]> for MortonIndex2D<S>
{
    type Error = crate::Error;

    fn try_from(value: [Quadrant; N]) -> Result<Self, Self::Error> {
        S::try_from(value).map(|storage| Self { storage })
    }
}

// TODO Don't know how to write this implementation in terms of TryFrom<&'a [Quadrant]> ...
// impl<'a, S: Storage<Dim2D> + TryFrom<&'a [Quadrant], Error = crate::Error>, const N: usize>
//     TryFrom<[Quadrant; N]> for MortonIndex2D<S>
// {
//     type Error = crate::Error;

//     fn try_from(value: [Quadrant; N]) -> Result<Self, Self::Error> {
//         let slice = value.as_slice();
//         S::try_from(slice).map(|storage| Self { storage })
//     }
// }

impl<S: Storage<Dim2D>> MortonIndex for MortonIndex2D<S> {
    type Dimension = Dim2D;

    fn get_cell_at_level(&self, level: usize) -> Quadrant {
        if level >= self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.get_cell_at_level_unchecked(level) }
    }

    unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> Quadrant {
        self.storage.get_cell_at_level_unchecked(level)
    }

    fn set_cell_at_level(&mut self, level: usize, cell: Quadrant) {
        if level >= self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.set_cell_at_level_unchecked(level, cell) }
    }

    unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: Quadrant) {
        self.storage.set_cell_at_level_unchecked(level, cell)
    }

    fn depth(&self) -> usize {
        self.storage.depth()
    }

    fn to_string(&self, naming: crate::MortonIndexNaming) -> String {
        match naming {
            crate::MortonIndexNaming::CellConcatenation => (0..self.depth())
                .map(|level| {
                    // Safe because we know the depth
                    let cell = unsafe { self.get_cell_at_level_unchecked(level) };
                    std::char::from_digit(cell.index() as u32, 10).unwrap()
                })
                .collect::<String>(),
            crate::MortonIndexNaming::CellConcatenationWithRoot => {
                format!("r{}", self.to_string(MortonIndexNaming::CellConcatenation))
            }
            crate::MortonIndexNaming::GridIndex => {
                let grid_index = self.to_grid_index(QuadrantOrdering::default());
                format!("{}-{}-{}", self.depth(), grid_index.x, grid_index.y)
            }
        }
    }

    fn to_grid_index(&self, ordering: QuadrantOrdering) -> <Dim2D as Dimension>::GridIndex {
        let mut index = Vector2::new(0, 0);
        for level in 0..self.depth() {
            let quadrant = unsafe { self.get_cell_at_level_unchecked(level) };
            let quadrant_index = ordering.to_index(quadrant);
            let shift = self.depth() - level - 1;
            index.x |= quadrant_index.x << shift;
            index.y |= quadrant_index.y << shift;
        }
        index
    }
}

/// Storage for a 2D Morton index that always stores a Morton index with a fixed depth (fixed number of levels)
#[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct FixedDepthStorage2D<B: FixedStorageType> {
    bits: B,
}

impl<B: FixedStorageType> Storage<Dim2D> for FixedDepthStorage2D<B> {
    type StorageType = FixedDepthStorage<Dim2D, B>;
    type Bits = B;

    fn bits(&self) -> &Self::Bits {
        &self.bits
    }

    fn bits_mut(&mut self) -> &mut Self::Bits {
        &mut self.bits
    }

    fn depth(&self) -> usize {
        FixedDepthStorage::<Dim2D, B>::MAX_LEVELS
    }
}

impl<'a, B: FixedStorageType> TryFrom<&'a [Quadrant]> for FixedDepthStorage2D<B> {
    type Error = crate::Error;

    fn try_from(quadrants: &'a [Quadrant]) -> Result<Self, Self::Error> {
        if quadrants.len() > <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS {
            return Err(crate::Error::DepthLimitedExceeded {
                max_depth: <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS,
            });
        }
        let mut ret: Self = Default::default();
        for (level, cell) in quadrants.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(level, *cell);
            }
        }
        Ok(ret)
    }
}

// We can't implement FromIterator, because if the iterator has too many elements, it won't fit into the FixedDepthStorage
// We would need a TryFromIterator trait, which doesn't exist

impl<B: FixedStorageType, const N: usize> TryFrom<[Quadrant; N]> for FixedDepthStorage2D<B> {
    type Error = crate::Error;

    fn try_from(quadrants: [Quadrant; N]) -> Result<Self, Self::Error> {
        if N > <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS {
            return Err(crate::Error::DepthLimitedExceeded {
                max_depth: <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS,
            });
        }
        let mut ret: Self = Default::default();
        for (level, cell) in quadrants.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(level, *cell);
            }
        }
        Ok(ret)
    }
}

impl<'a, B: FixedStorageType> IntoIterator for &'a FixedDepthStorage2D<B> {
    type Item = Quadrant;
    type IntoIter = CellIter<'a, Dim2D, FixedDepthStorage2D<B>>;

    fn into_iter(self) -> Self::IntoIter {
        CellIter {
            index: 0,
            storage: &self,
            _phantom: Default::default(),
        }
    }
}

/// Morton index storage which can store an arbitrary number of levels up to a static maximum number of levels
/// as defined by the `FixedStorageType` `B`. As opposed to the `FixedDepthStorage`, two Morton indices with this
/// storage type can represent two nodes with different depth levels. Since the internal bit representation is
/// fixed at compile-time by the `FixedStorageType` parameter, the maximum depth is limited at compile-time as
/// well, so some of the methods that construct or extend Morton indices with this storage might return `None` if
/// the internal storage capacity is not sufficient.
#[derive(Default, Debug, Clone, Copy, Hash)]
pub struct StaticStorage2D<B: FixedStorageType> {
    bits: B,
    depth: u8,
}

impl<B: FixedStorageType> Storage<Dim2D> for StaticStorage2D<B> {
    type StorageType = StaticStorage<Dim2D, B>;
    type Bits = B;

    fn bits(&self) -> &Self::Bits {
        &self.bits
    }

    fn bits_mut(&mut self) -> &mut Self::Bits {
        &mut self.bits
    }

    fn depth(&self) -> usize {
        self.depth as usize
    }
}

impl<B: FixedStorageType> PartialOrd for StaticStorage2D<B> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl<B: FixedStorageType> Ord for StaticStorage2D<B> {
    fn cmp(&self, other: &Self) -> Ordering {
        let end_bit = B::BITS;
        let self_start_bit = end_bit - (self.depth() * 2);
        let other_start_bit = end_bit - (other.depth() * 2);
        match self.depth().cmp(&other.depth()) {
            Ordering::Less => {
                // Only compare bits up to 2*self.depth(). If less or equal, self is by definition less
                let self_bits = unsafe { self.bits.get_bits(self_start_bit..end_bit) };
                let other_bits = unsafe { other.bits.get_bits(self_start_bit..end_bit) };
                if self_bits > other_bits {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
            }
            Ordering::Equal => {
                let self_bits = unsafe { self.bits.get_bits(self_start_bit..end_bit) };
                let other_bits = unsafe { other.bits.get_bits(other_start_bit..end_bit) };
                self_bits.cmp(&other_bits)
            }
            Ordering::Greater => {
                // This is the opposite of the Ordering::Less case, we compare bits up to 2*other.depth() and
                // if self is greater or equal, other is less, otherwise other is greater
                let self_bits = unsafe { self.bits.get_bits(other_start_bit..end_bit) };
                let other_bits = unsafe { other.bits.get_bits(other_start_bit..end_bit) };
                if self_bits >= other_bits {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
            }
        }
    }
}

impl<B: FixedStorageType> PartialEq for StaticStorage2D<B> {
    fn eq(&self, other: &Self) -> bool {
        // TODO Should we maybe only compare self.bits.bits(0..2*self.depth)?
        self.bits == other.bits && self.depth == other.depth
    }
}

impl<B: FixedStorageType> Eq for StaticStorage2D<B> {}

impl<B: FixedStorageType> VariableDepthStorage<Dim2D> for StaticStorage2D<B> {
    fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        if generations.get() > self.depth as usize {
            return None;
        }

        let mut ret = *self;
        // Zero out all quadrants below the new depth
        let new_depth = self.depth - generations.get() as u8;
        for level in new_depth..self.depth {
            unsafe {
                ret.set_cell_at_level_unchecked(level as usize, Quadrant::Zero);
            }
        }
        ret.depth = new_depth;
        Some(ret)
    }

    fn descendant(&self, cells: &[<Dim2D as Dimension>::Cell]) -> Option<Self> {
        let new_depth = self.depth as usize + cells.len();
        if new_depth > <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS {
            return None;
        }

        let mut ret = *self;
        for (offset, cell) in cells.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(self.depth as usize + offset, *cell);
            }
        }
        ret.depth = new_depth as u8;
        Some(ret)
    }
}

impl<'a, B: FixedStorageType> TryFrom<&'a [Quadrant]> for StaticStorage2D<B> {
    type Error = crate::Error;

    fn try_from(quadrants: &'a [Quadrant]) -> Result<Self, Self::Error> {
        if quadrants.len() > <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS {
            return Err(crate::Error::DepthLimitedExceeded {
                max_depth: <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS,
            });
        }
        let mut ret: Self = Default::default();
        for (level, cell) in quadrants.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(level, *cell);
            }
        }
        ret.depth = quadrants.len() as u8;
        Ok(ret)
    }
}

impl<B: FixedStorageType, const N: usize> TryFrom<[Quadrant; N]> for StaticStorage2D<B> {
    type Error = crate::Error;

    fn try_from(quadrants: [Quadrant; N]) -> Result<Self, Self::Error> {
        if N > <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS {
            return Err(crate::Error::DepthLimitedExceeded {
                max_depth: <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS,
            });
        }
        let mut ret: Self = Default::default();
        for (level, cell) in quadrants.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(level, *cell);
            }
        }
        ret.depth = N as u8;
        Ok(ret)
    }
}

impl<'a, B: FixedStorageType> IntoIterator for &'a StaticStorage2D<B> {
    type Item = Quadrant;
    type IntoIter = CellIter<'a, Dim2D, StaticStorage2D<B>>;

    fn into_iter(self) -> Self::IntoIter {
        CellIter {
            index: 0,
            storage: self,
            _phantom: Default::default(),
        }
    }
}

/// Morton index storage which can store an arbitrary number of levels without an upper limit. This uses a
/// `Vec<u8>` as the internal storage, which can grow dynamically, at the expense of not being `Copy` and
/// potentially worse performance than the `StaticStorage2D` and `FixedStorage2D` variants.
///
/// Note: There is no guarantee about endianness on any of the storage types, the `DynamicStorage2D` might
/// not even have a consistent endianness, so it's not valid to assume any order of the internal bits.
#[derive(Default, Debug, Clone, Hash, PartialEq, Eq)]
pub struct DynamicStorage2D {
    bits: Vec<u8>,
    depth: usize,
}

impl DynamicStorage2D {
    pub fn zeroed(depth: usize) -> Self {
        let num_bytes = (depth + 3) / 4;
        Self {
            bits: vec![0; num_bytes],
            depth,
        }
    }

    fn get_cell_at_level_or_none(&self, level: usize) -> Option<Quadrant> {
        if level >= self.depth.into() {
            None
        } else {
            // Is safe because of level check above
            unsafe { Some(self.get_cell_at_level_unchecked(level)) }
        }
    }
}

impl PartialOrd for DynamicStorage2D {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for DynamicStorage2D {
    fn cmp(&self, other: &Self) -> Ordering {
        let max_level = self.depth().max(other.depth());
        for level in 0..max_level {
            let self_cell = self.get_cell_at_level_or_none(level);
            let other_cell = other.get_cell_at_level_or_none(level);
            let cmp = self_cell.cmp(&other_cell);
            if cmp == Ordering::Equal {
                continue;
            }
            return cmp;
        }
        Ordering::Equal
    }
}

impl Storage<Dim2D> for DynamicStorage2D {
    type StorageType = DynamicStorage<Dim2D>;
    type Bits = Vec<u8>;

    fn bits(&self) -> &Self::Bits {
        &self.bits
    }

    fn bits_mut(&mut self) -> &mut Self::Bits {
        &mut self.bits
    }

    fn depth(&self) -> usize {
        self.depth
    }
}

impl VariableDepthStorage<Dim2D> for DynamicStorage2D {
    fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        // ancestor is probably something like: Take the last N bits, where N = (depth_depth + 3) / 4, and then trim off the
        // remaining bits within the last byte (like the _ case)
        if generations.get() > self.depth {
            return None;
        }
        let new_depth = self.depth - generations.get();
        let current_num_bytes = (self.depth + 3) / 4;
        let new_num_bytes = (new_depth + 3) / 4;
        let bytes_to_skip = current_num_bytes - new_num_bytes;
        let mut new_bits = self
            .bits
            .iter()
            .copied()
            .skip(bytes_to_skip)
            .collect::<Vec<_>>();
        let bits_in_first_byte = new_depth % 4;
        if new_num_bytes > 0 && bits_in_first_byte > 0 {
            // Mask off the lowest bits in the first byte. These bits contain cells for levels > new_depth
            let leftover_bits_in_last_byte = (4 - bits_in_first_byte) * 2;
            // This is a mask with the lowest 'leftover_bits_in_last_byte' set to 0 and the rest to 1
            let mask = !((1 << leftover_bits_in_last_byte) - 1);
            new_bits[0] &= mask;
        }

        Some(Self {
            bits: new_bits,
            depth: new_depth,
        })
    }

    fn descendant(&self, cells: &[<Dim2D as Dimension>::Cell]) -> Option<Self> {
        // descendant is harder: figure out how many cells fit into the current bit, and push the rest as new bytes
        // maybe implement it as a simple 'grow bits so that bits.len() * 4 can fit all levels', and then call 'set_cell_at_level_unchecked'
        // to set all the cells
        let new_depth = self.depth + cells.len();
        let current_num_bytes = (self.depth + 3) / 4;
        let new_num_bytes = (new_depth + 3) / 4;
        let bytes_to_add = new_num_bytes - current_num_bytes;
        let new_bits = std::iter::repeat(0)
            .take(bytes_to_add)
            .chain(self.bits.iter().copied())
            .collect::<Vec<_>>();
        let mut ret = Self {
            bits: new_bits,
            depth: new_depth,
        };
        for (level_offset, cell) in cells.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(self.depth as usize + level_offset, *cell);
            }
        }
        Some(ret)
    }
}

impl<'a> TryFrom<&'a [Quadrant]> for DynamicStorage2D {
    type Error = crate::Error;

    fn try_from(quadrants: &'a [Quadrant]) -> Result<Self, Self::Error> {
        let num_bytes = (quadrants.len() + 3) / 4;
        let mut storage = Self {
            bits: vec![0; num_bytes],
            depth: quadrants.len(),
        };
        for (level, quadrant) in quadrants.iter().enumerate() {
            unsafe {
                storage.set_cell_at_level_unchecked(level, *quadrant);
            }
        }
        Ok(storage)
    }
}

impl<const N: usize> TryFrom<[Quadrant; N]> for DynamicStorage2D {
    type Error = crate::Error;

    fn try_from(quadrants: [Quadrant; N]) -> Result<Self, Self::Error> {
        let num_bytes = (N + 3) / 4;
        let mut storage = Self {
            bits: vec![0; num_bytes],
            depth: N,
        };
        for (level, quadrant) in quadrants.iter().enumerate() {
            unsafe {
                storage.set_cell_at_level_unchecked(level, *quadrant);
            }
        }
        Ok(storage)
    }
}

impl<'a> IntoIterator for &'a DynamicStorage2D {
    type Item = Quadrant;
    type IntoIter = CellIter<'a, Dim2D, DynamicStorage2D>;

    fn into_iter(self) -> Self::IntoIter {
        CellIter {
            index: 0,
            storage: self,
            _phantom: Default::default(),
        }
    }
}

// 6 possible conversions:
// FixedDepth -> Static   (safe if Static Bits >= FixedDepth Bits)
// FixedDepth -> Dynamic  (always safe)
// Static -> Dynamic      (always safe)
// Static -> FixedDepth   (safe if FixedDepth Bits >= Static Bits, has to zero-fill. Maybe doesn't make sense?)
// Dynamic -> FixedDepth  (safe if FixedDepth Bits >= Dynamic depth, has to zero-fill. Maybe doesn't make sense?)
// Dynamic -> Static      (safe if Static Bits >= Dynamic depth)

impl<B: FixedStorageType> From<MortonIndex2D<FixedDepthStorage2D<B>>>
    for MortonIndex2D<StaticStorage2D<B>>
{
    fn from(fixed_index: MortonIndex2D<FixedDepthStorage2D<B>>) -> Self {
        Self {
            storage: StaticStorage2D {
                bits: fixed_index.storage.bits,
                depth: StaticStorage::<Dim2D, B>::MAX_LEVELS as u8,
            },
        }
    }
}

impl<B: FixedStorageType> From<MortonIndex2D<FixedDepthStorage2D<B>>>
    for MortonIndex2D<DynamicStorage2D>
{
    fn from(fixed_index: MortonIndex2D<FixedDepthStorage2D<B>>) -> Self {
        let native_bits = unsafe { fixed_index.storage.bits.as_u8_slice() };
        #[cfg(target_endian = "little")]
        let bits = native_bits.to_owned();
        #[cfg(target_endian = "big")]
        let bits = native_bits.iter().copied().rev().collect::<Vec<_>>();
        Self {
            storage: DynamicStorage2D {
                bits,
                depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
            },
        }
    }
}

impl<B: FixedStorageType> From<MortonIndex2D<StaticStorage2D<B>>>
    for MortonIndex2D<FixedDepthStorage2D<B>>
{
    fn from(static_index: MortonIndex2D<StaticStorage2D<B>>) -> Self {
        Self {
            storage: FixedDepthStorage2D {
                bits: static_index.storage.bits,
            },
        }
    }
}

impl<B: FixedStorageType> From<MortonIndex2D<StaticStorage2D<B>>>
    for MortonIndex2D<DynamicStorage2D>
{
    fn from(fixed_index: MortonIndex2D<StaticStorage2D<B>>) -> Self {
        let ret : Self = Default::default();
        ret.descendant(&fixed_index.cells().collect::<Vec<_>>()).unwrap()
        // TODO Implement more efficient (and CORRECT) conversion routine
        // let native_bits = unsafe { fixed_index.storage.bits.as_u8_slice() };
        // #[cfg(target_endian = "little")]
        // let bits = native_bits.to_owned();
        // #[cfg(target_endian = "big")]
        // let bits = native_bits.iter().copied().rev().collect::<Vec<_>>();
        // Self {
        //     storage: DynamicStorage2D {
        //         bits,
        //         depth: StaticStorage::<Dim2D, B>::MAX_LEVELS,
        //     },
        // }
    }
}

// The conversion from a dynamic index to other index types are dependent of a runtime parameter (the depth() of the dynamic
// index) and as such these conversions can fail at runtime. Which is why dynamic conversions only implement `TryFrom`

impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
    for MortonIndex2D<FixedDepthStorage2D<B>>
{
    type Error = crate::Error;

    fn try_from(value: MortonIndex2D<DynamicStorage2D>) -> Result<Self, Self::Error> {
        if value.depth() > FixedDepthStorage::<Dim2D, B>::MAX_LEVELS {
            Err(crate::Error::DepthLimitedExceeded {
                max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
            })
        } else {
            // The dynamic index may use fewer bytes than `B`, so its cells have to be placed level by level, which leaves
            // the remaining levels zero-filled
            let mut ret: MortonIndex2D<FixedDepthStorage2D<B>> = Default::default();
            for level in 0..value.depth() {
                // Safe because of depth check above
                unsafe {
                    ret.set_cell_at_level_unchecked(
                        level,
                        value.get_cell_at_level_unchecked(level),
                    );
                }
            }
            Ok(ret)
        }
    }
}

impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
    for MortonIndex2D<StaticStorage2D<B>>
{
    type Error = crate::Error;

    fn try_from(value: MortonIndex2D<DynamicStorage2D>) -> Result<Self, Self::Error> {
        if value.depth() > FixedDepthStorage::<Dim2D, B>::MAX_LEVELS {
            Err(crate::Error::DepthLimitedExceeded {
                max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
            })
        } else {
            // TODO There might be a way to optimize this code by directly setting the bits of the StaticStorage2D, however
            // it involves potentially extracting less than a byte worth of data from the DynamicStorage
            let mut ret: MortonIndex2D<StaticStorage2D<B>> = Default::default();
            for level in 0..value.depth() {
                // Safe because of depth check above
                unsafe {
                    ret.set_cell_at_level_unchecked(
                        level,
                        value.get_cell_at_level_unchecked(level),
                    );
                }
            }
            ret.storage.depth = value.depth() as u8;
            Ok(ret)
        }
    }
}

// TODO Bit truncation / extension conversions, e.g.:
//   FixedDepth<u8> to FixedDepth<u64> (extension)
//   FixedDepth<u64> to FixedDepth<u8> (truncation)
