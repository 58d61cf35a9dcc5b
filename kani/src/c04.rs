//! C04: 2D Morton index from a grid position
use crate::idx::*;
use crate::nd;
use morton_index::nalgebra::Vector2;

/// depth is `d`; the cell of an arbitrary level combines the bits of that level, the most significant of the lowest d bits first
fn ensure_grid<T: Idx>(m: &T, d: usize, x: usize, y: usize, b: [usize; 2]) {
    ensure_cells(m, d, |j| { let s = d - 1 - j; ((x >> s) & 1) << b[0] | ((y >> s) & 1) << b[1] })
}
macro_rules! fixed { ($t:ty) => { {
    let (x, y) = (nd::usize(), nd::usize());
    let (o, b) = ord2(nd::below(2));
    ensure_grid(&<$t>::from_grid_index(Vector2::new(x, y), o), <$t as Idx>::CAP, x, y, b)
} } }
pub mod fixed {
    use super::*;
    obligations! {
        f2_u8 [3] { fixed!(F2<u8>) } f2_u16 [4] { fixed!(F2<u16>) } f2_u32 [6] { fixed!(F2<u32>) }
        f2_u64 [10] { fixed!(F2<u64>) } f2_u128 [18] { fixed!(F2<u128>) } f2_usize [10] { fixed!(F2<usize>) }
    }
}
macro_rules! stat { ($t:ty) => { {
    let (x, y) = (nd::usize(), nd::usize());
    let (o, b) = ord2(nd::below(2));
    let d = nd::usize();
    let r = <$t>::from_grid_index(Vector2::new(x, y), d, o);
    if d > <$t as Idx>::CAP { assert!(is_limit(r, <$t as Idx>::CAP), "limit error with the maximum") }
    else { match r { Ok(m) => ensure_grid(&m, d, x, y, b), Err(_) => assert!(false, "rejected although it fits") } }
} } }
pub mod stat {
    use super::*;
    obligations! {
        s2_u8 [3] { stat!(S2<u8>) } s2_u16 [4] { stat!(S2<u16>) } s2_u32 [6] { stat!(S2<u32>) }
        s2_u64 [10] { stat!(S2<u64>) } s2_u128 [18] { stat!(S2<u128>) } s2_usize [10] { stat!(S2<usize>) }
    }
}
macro_rules! dynamic { ($d:literal) => { {
    let (x, y) = (nd::usize(), nd::usize());
    let (o, b) = ord2(nd::below(2));
    ensure_grid(&Y2::from_grid_index(Vector2::new(x, y), $d, o), $d, x, y, b)
} } }
/// dynamic: every depth the construction accepts (0..=32), one obligation per four depths
pub mod dynamic {
    use super::*;
    obligations! {
        d0_3 [34] { dynamic!(0); dynamic!(1); dynamic!(2); dynamic!(3) }
        d4_7 [34] { dynamic!(4); dynamic!(5); dynamic!(6); dynamic!(7) }
        d8_11 [34] { dynamic!(8); dynamic!(9); dynamic!(10); dynamic!(11) }
        d12_15 [34] { dynamic!(12); dynamic!(13); dynamic!(14); dynamic!(15) }
        d16_19 [34] { dynamic!(16); dynamic!(17); dynamic!(18); dynamic!(19) }
        d20_23 [34] { dynamic!(20); dynamic!(21); dynamic!(22); dynamic!(23) }
        d24_27 [34] { dynamic!(24); dynamic!(25); dynamic!(26); dynamic!(27) }
        d28_32 [34] { dynamic!(28); dynamic!(29); dynamic!(30); dynamic!(31); dynamic!(32) }
    }
}
