//! A storage that is nothing but its contract: it records every call in ghost state and answers from it. Instantiating the
//! generic wrappers of `MortonIndex2D`/`3D` with it checks them against the storage contract for every depth (the depth is an
//! arbitrary usize), independent of any concrete storage.
use crate::idx::*;
use crate::nd;
use morton_index::dimensions::*;
use morton_index::number::Bits;
use morton_index::*;

pub static mut DEPTH: usize = 0;
pub static mut READS: usize = 0;
pub static mut WRITES: usize = 0;
pub static mut LEVEL: usize = 0;
pub static mut CELL: usize = 0;
/// every access is to this level
pub static mut EXPECT: usize = 0;
/// what any read returns
pub static mut CONTENT: usize = 0;
/// storage accesses are forbidden
pub static mut FORBID: bool = false;
fn access(level: usize) { unsafe { if FORBID { nd::never(); } assert!(level < DEPTH, "precondition level < depth of the storage contract"); assert!(level == EXPECT, "access to another level"); } }
pub fn init(depth: usize, content: usize) { unsafe { DEPTH = depth; READS = 0; WRITES = 0; LEVEL = 0; CELL = 0; CONTENT = content; FORBID = false; } }

macro_rules! ghost {
    ($g:ident, $st:ident, $dim:ident, $c:ident, $cell:ident, $num:ident) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $g { bits: u8 }
        pub struct $st;
        impl StorageType for $st {
            type Dimension = $dim;
            const MAX_LEVELS: usize = 0;
            const DIMENSIONALITY: usize = $dim::DIMENSIONALITY;
            fn max_depth() -> Option<usize> { None }
            unsafe fn get_cell_at_level_unchecked<T: Bits>(_: &T, level: usize) -> $c {
                access(level);
                READS += 1; LEVEL = level;
                $cell(CONTENT)
            }
            unsafe fn set_cell_at_level_unchecked<T: Bits>(_: &mut T, level: usize, cell: $c) {
                access(level);
                WRITES += 1; LEVEL = level; CELL = $num(cell);
            }
        }
        impl Storage<$dim> for $g {
            type StorageType = $st;
            type Bits = u8;
            fn bits(&self) -> &u8 { &self.bits }
            fn bits_mut(&mut self) -> &mut u8 { &mut self.bits }
            fn depth(&self) -> usize { unsafe { DEPTH } }
        }
    };
}
ghost!(G2, GT2, Dim2D, Quadrant, quad, qn);
ghost!(G3, GT3, Dim3D, Octant, oct, on);
