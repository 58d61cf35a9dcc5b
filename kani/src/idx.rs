//! Abstract view used by the contracts: an index is (depth, cells). The cells are packed into a u128 with level 0 in the
//! most significant bits, so the first n cells of a packed sequence are its top n*D bits.
use crate::nd;
use morton_index::dimensions::*;
use morton_index::*;
use std::result::Result;

pub fn quad(x: usize) -> Quadrant { match x & 3 { 0 => Quadrant::Zero, 1 => Quadrant::One, 2 => Quadrant::Two, _ => Quadrant::Three } }
pub fn oct(x: usize) -> Octant { match x & 7 { 0 => Octant::Zero, 1 => Octant::One, 2 => Octant::Two, 3 => Octant::Three, 4 => Octant::Four, 5 => Octant::Five, 6 => Octant::Six, _ => Octant::Seven } }
pub fn qn(q: Quadrant) -> usize { match q { Quadrant::Zero => 0, Quadrant::One => 1, Quadrant::Two => 2, Quadrant::Three => 3 } }
pub fn on(q: Octant) -> usize { match q { Octant::Zero => 0, Octant::One => 1, Octant::Two => 2, Octant::Three => 3, Octant::Four => 4, Octant::Five => 5, Octant::Six => 6, Octant::Seven => 7 } }

/// Cell `l` of the packed cells `p`
pub fn pc(p: u128, d: usize, l: usize) -> usize { ((p >> (128 - d * (l + 1))) as usize) & ((1 << d) - 1) }
/// `p` with cell `l` replaced by `c`
pub fn pset(p: u128, d: usize, l: usize, c: usize) -> u128 { let s = 128 - d * (l + 1); (p & !(((1u128 << d) - 1) << s)) | ((c as u128) << s) }
/// The first `n` cells of `p`, the rest zero
pub fn ptrunc(p: u128, d: usize, n: usize) -> u128 { if n == 0 { 0 } else { let s = (128 - d * n) as u32; (p >> s) << s } }
/// The cells of `p` from level `n` on
pub fn pshl(p: u128, d: usize, n: usize) -> u128 { if d * n >= 128 { 0 } else { p << (d * n) } }
/// `p` moved `n` levels deeper
pub fn pshr(p: u128, d: usize, n: usize) -> u128 { if d * n >= 128 { 0 } else { p >> (d * n) } }

/// What the contracts need from an index type; implemented for every public index type, only with its public API.
pub trait Idx: MortonIndex + Clone {
    type C: Copy;
    const D: usize;
    /// capacity in levels (for dynamic indices: what the packed cells can hold)
    const CAP: usize;
    const FIXED: bool;
    const DYN: bool;
    /// all-zero index of depth `d` (`d == CAP` for fixed-depth types)
    fn zero(d: usize) -> Self;
    fn cell(c: usize) -> Self::C;
    fn num(c: Self::C) -> usize;
    fn get(&self, l: usize) -> usize;
    fn set(&mut self, l: usize, c: usize);
    fn slice(s: &[Self::C]) -> Result<Self, morton_index::Error>;
    fn next_cells(&self, f: &mut dyn FnMut(Option<usize>) -> bool);
}
macro_rules! idx {
    ($t:ty, $d:literal, $cap:literal, $fixed:literal, $dyn:literal, $cty:ty, $cell:ident, $num:ident, $zero:expr) => {
        impl Idx for $t {
            type C = $cty;
            const D: usize = $d;
            const CAP: usize = $cap;
            const FIXED: bool = $fixed;
            const DYN: bool = $dyn;
            fn zero(d: usize) -> Self { let z: fn(usize) -> $t = $zero; z(d) }
            fn cell(c: usize) -> $cty { $cell(c) }
            fn num(c: $cty) -> usize { $num(c) }
            fn get(&self, l: usize) -> usize { $num(self.get_cell_at_level(l)) }
            fn set(&mut self, l: usize, c: usize) { self.set_cell_at_level(l, $cell(c)) }
            fn slice(s: &[$cty]) -> Result<Self, morton_index::Error> { Self::try_from(s) }
            fn next_cells(&self, f: &mut dyn FnMut(Option<usize>) -> bool) { let mut it = self.cells(); loop { if !f(it.next().map($num)) { break } } }
        }
    };
}
macro_rules! fixed_static {
    ($($b:ty, $c2:literal, $c3:literal;)*) => { $(
        idx!(F2<$b>, 2, $c2, true, false, Quadrant, quad, qn, |_| Default::default());
        idx!(S2<$b>, 2, $c2, false, false, Quadrant, quad, qn, |d| S2::<$b>::zeroed(d as u8).unwrap());
        idx!(F3<$b>, 3, $c3, true, false, Octant, oct, on, |_| Default::default());
        idx!(S3<$b>, 3, $c3, false, false, Octant, oct, on, |d| S3::<$b>::zeroed(d as u8).unwrap());
    )* };
}
fixed_static! { u8, 4, 2; u16, 8, 5; u32, 16, 10; u64, 32, 21; u128, 64, 42; usize, 32, 21; }
idx!(Y2, 2, 64, false, true, Quadrant, quad, qn, |d| Y2::zeroed(d));
idx!(Y3, 3, 42, false, true, Octant, oct, on, |d| Y3::zeroed(d));

pub type F2<B> = MortonIndex2D<FixedDepthStorage2D<B>>;
pub type S2<B> = MortonIndex2D<StaticStorage2D<B>>;
pub type F3<B> = MortonIndex3D<FixedDepthStorage3D<B>>;
pub type S3<B> = MortonIndex3D<StaticStorage3D<B>>;
pub type Y2 = DynamicMortonIndex2D;
pub type Y3 = DynamicMortonIndex3D;

/// The index with depth `d` and the cells of `p`, written level by level into a zero index
pub fn build<T: Idx>(d: usize, p: u128) -> T {
    let mut m = T::zero(d);
    for l in 0..if T::DYN { d } else { T::CAP } { if l < d { m.set(l, pc(p, T::D, l)); } }
    m
}
/// Postcondition: `m` has depth `d` and, on every level, the cell that `f` gives for it. For the bounded-width types an
/// arbitrary level is picked; for dynamic indices, whose depth is concrete in these obligations, the levels are enumerated.
pub fn ensure_cells<T: Idx>(m: &T, d: usize, f: impl Fn(usize) -> usize) {
    assert!(m.depth() == d, "depth");
    if T::DYN {
        for j in 0..d { assert!(m.get(j) == f(j), "cell of a level"); }
    } else if d > 0 {
        let j = nd::below(T::CAP);
        nd::assume(j < d);
        assert!(m.get(j) == f(j), "cell of an arbitrary level");
    }
}
pub fn ensure_is<T: Idx>(m: &T, d: usize, p: u128) { ensure_cells(m, d, |j| pc(p, T::D, j)) }
/// Any depth the type can have
pub fn any_depth<T: Idx>() -> usize { if T::FIXED { T::CAP } else { nd::below(T::CAP + 1) } }
/// Is `e` the depth-limit error for `max`?
pub fn is_limit<X>(e: Result<X, morton_index::Error>, max: usize) -> bool {
    match e { Err(morton_index::Error::DepthLimitedExceeded { max_depth }) => max_depth == max, _ => false }
}
pub fn any_xy() -> usize { nd::usize() }
/// Bit of axis 0 (x) and 1 (y) in a quadrant number under an ordering: the axis named first takes bit 0
pub fn ord2(k: usize) -> (QuadrantOrdering, [usize; 2]) { if k == 0 { (QuadrantOrdering::XY, [0, 1]) } else { (QuadrantOrdering::YX, [1, 0]) } }
/// Bit of axes x, y, z in an octant number under an ordering: the axis named first takes bit 0, the second bit 1, the third bit 2
pub fn ord3(k: usize) -> (OctantOrdering, [usize; 3]) {
    match k {
        0 => (OctantOrdering::XYZ, [0, 1, 2]),
        1 => (OctantOrdering::XZY, [0, 2, 1]),
        2 => (OctantOrdering::YXZ, [1, 0, 2]),
        3 => (OctantOrdering::YZX, [2, 0, 1]),
        4 => (OctantOrdering::ZXY, [1, 2, 0]),
        _ => (OctantOrdering::ZYX, [2, 1, 0]),
    }
}
