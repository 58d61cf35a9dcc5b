//! The checked accessors of MortonIndex2D/3D against the storage contract, for every depth
use crate::ghost::*;
use crate::idx::*;
use crate::nd;
use morton_index::*;

fn setup() -> (usize, usize, usize) {
    let d = nd::usize();
    let l = nd::usize();
    let c = nd::usize();
    init(d, c);
    unsafe { EXPECT = l; }
    (d, l, nd::usize())
}
/// requires level < depth; ensures exactly one storage access, at that level, with that cell; depth unchanged
pub mod inside {
    use super::*;
    obligations! {
        get2 [2] { let (d, l, _) = setup(); nd::assume(l < d); let m: MortonIndex2D<G2> = Default::default(); unsafe { assert!(m.depth() == d); assert!(qn(m.get_cell_at_level(l)) == CONTENT & 3 && LEVEL == l && READS >= 1 && WRITES == 0); } }
        get3 [2] { let (d, l, _) = setup(); nd::assume(l < d); let m: MortonIndex3D<G3> = Default::default(); unsafe { assert!(m.depth() == d); assert!(on(m.get_cell_at_level(l)) == CONTENT & 7 && LEVEL == l && READS >= 1 && WRITES == 0); } }
        set2 [2] { let (d, l, c) = setup(); nd::assume(l < d); let mut m: MortonIndex2D<G2> = Default::default(); m.set_cell_at_level(l, quad(c)); unsafe { assert!(CELL == c & 3 && LEVEL == l && WRITES >= 1 && m.depth() == d); } }
        set3 [2] { let (d, l, c) = setup(); nd::assume(l < d); let mut m: MortonIndex3D<G3> = Default::default(); m.set_cell_at_level(l, oct(c)); unsafe { assert!(CELL == c & 7 && LEVEL == l && WRITES >= 1 && m.depth() == d); } }
        unchecked2 [2] { let (d, l, c) = setup(); nd::assume(l < d); let mut m: MortonIndex2D<G2> = Default::default(); unsafe { assert!(qn(m.get_cell_at_level_unchecked(l)) == CONTENT & 3 && LEVEL == l && READS >= 1); m.set_cell_at_level_unchecked(l, quad(c)); assert!(CELL == c & 3 && LEVEL == l && WRITES >= 1); } }
        unchecked3 [2] { let (d, l, c) = setup(); nd::assume(l < d); let mut m: MortonIndex3D<G3> = Default::default(); unsafe { assert!(on(m.get_cell_at_level_unchecked(l)) == CONTENT & 7 && LEVEL == l && READS >= 1); m.set_cell_at_level_unchecked(l, oct(c)); assert!(CELL == c & 7 && LEVEL == l && WRITES >= 1); } }
    }
}
/// requires level >= depth; the call panics, and the storage's precondition is never violated on the way
pub mod outside {
    use super::*;
    panics! {
        get2 [2] { let (d, l, _) = setup(); nd::assume(l >= d); touch(); let m: MortonIndex2D<G2> = Default::default(); m.get_cell_at_level(l); }
        get3 [2] { let (d, l, _) = setup(); nd::assume(l >= d); touch(); let m: MortonIndex3D<G3> = Default::default(); m.get_cell_at_level(l); }
        set2 [2] { let (d, l, c) = setup(); nd::assume(l >= d); touch(); let mut m: MortonIndex2D<G2> = Default::default(); m.set_cell_at_level(l, quad(c)); }
        set3 [2] { let (d, l, c) = setup(); nd::assume(l >= d); touch(); let mut m: MortonIndex3D<G3> = Default::default(); m.set_cell_at_level(l, oct(c)); }
    }
    /// any storage access from here on is a violation
    fn touch() { unsafe { FORBID = true; } }
}
