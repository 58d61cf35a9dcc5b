//! C05: 3D Morton index from a grid position
use crate::idx::*;
use crate::nd;
use morton_index::nalgebra::Vector3;
use morton_index::dimensions::OctantOrdering;

/// depth is `d`; the cell of an arbitrary level combines the bits of that level, the most significant of the lowest d bits first
fn ensure_grid<T: Idx>(m: &T, d: usize, g: [usize; 3], b: [usize; 3]) {
    ensure_cells(m, d, |j| { let s = d - 1 - j; ((g[0] >> s) & 1) << b[0] | ((g[1] >> s) & 1) << b[1] | ((g[2] >> s) & 1) << b[2] })
}
fn any_grid() -> ([usize; 3], OctantOrdering, [usize; 3]) {
    let g = [nd::usize(), nd::usize(), nd::usize()];
    let (o, b) = ord3(nd::below(6));
    (g, o, b)
}
macro_rules! fixed { ($t:ty) => { {
    let (g, o, b) = any_grid();
    ensure_grid(&<$t>::from_grid_index(Vector3::new(g[0], g[1], g[2]), o), <$t as Idx>::CAP, g, b)
} } }
pub mod fixed {
    use super::*;
    obligations! {
        f3_u8 [3] { fixed!(F3<u8>) } f3_u16 [3] { fixed!(F3<u16>) } f3_u32 [4] { fixed!(F3<u32>) }
        f3_u64 [5] { fixed!(F3<u64>) } f3_u128 [8] { fixed!(F3<u128>) } f3_usize [5] { fixed!(F3<usize>) }
    }
}
macro_rules! stat { ($t:ty) => { {
    let (g, o, b) = any_grid();
    let d = nd::usize();
    let r = <$t>::from_grid_index(Vector3::new(g[0], g[1], g[2]), d, o);
    if d > <$t as Idx>::CAP { assert!(is_limit(r, <$t as Idx>::CAP), "limit error with the maximum") }
    else { match r { Ok(m) => ensure_grid(&m, d, g, b), Err(_) => assert!(false, "rejected although it fits") } }
} } }
pub mod stat {
    use super::*;
    obligations! {
        s3_u8 [3] { stat!(S3<u8>) } s3_u16 [3] { stat!(S3<u16>) } s3_u32 [4] { stat!(S3<u32>) }
        s3_u64 [5] { stat!(S3<u64>) } s3_u128 [8] { stat!(S3<u128>) } s3_usize [5] { stat!(S3<usize>) }
    }
}
/// the fast 64-bit constructions
pub mod fast {
    use super::*;
    obligations! {
        f3_u64 [5] { let (g, o, b) = any_grid(); let v = Vector3::new(g[0], g[1], g[2]); let m = F3::<u64>::from_grid_index_fast(v, o); ensure_grid(&m, 21, g, b); assert!(m == F3::<u64>::from_grid_index(v, o)) }
    }
}
macro_rules! dynamic { ($d:literal) => { {
    let (g, o, b) = any_grid();
    ensure_grid(&Y3::from_grid_index(Vector3::new(g[0], g[1], g[2]), $d, o), $d, g, b)
} } }
/// dynamic: every depth the construction accepts (0..=32), one obligation per four depths
pub mod dynamic {
    use super::*;
    obligations! {
        d0_3 [34] { dynamic!(0); dynamic!(1); dynamic!(2); dynamic!(3) }
        d4_7 [34] { dynamic!(4); dynamic!(5); dynamic!(6); dynamic!(7) }
        d8_11 [34] { dynamic!(8); dynamic!(9); dynamic!(10); dynamic!(11) }
        d12_15 [34] { dynamic!(12); dynamic!(13); dynamic!(14); dynamic!(15) }
        d16_19 [34] { dynamic!(16); dynamic!(17); dynamic!(18); dynamic!(19) }
        d20_23 [34] { dynamic!(20); dynamic!(21); dynamic!(22); dynamic!(23) }
        d24_27 [34] { dynamic!(24); dynamic!(25); dynamic!(26); dynamic!(27) }
        d28_32 [34] { dynamic!(28); dynamic!(29); dynamic!(30); dynamic!(31); dynamic!(32) }
    }
}
