//! C06: grid position of an index
use crate::idx::*;
use crate::nd;
use morton_index::*;
use morton_index::nalgebra::{Vector2, Vector3};

/// bit (depth-1-level) of every axis is the bit the ordering assigns to the cell of that level; no other bits
fn ensure_pos(c: usize, d: usize, j: usize, v: usize, b: usize) {
    assert!((v >> (d - 1 - j)) & 1 == (c >> b) & 1, "bit of an arbitrary level");
    assert!(d == 64 || v >> d == 0, "below 2^depth");
}
fn pos2<T: Idx + MortonIndex<Dimension = morton_index::dimensions::Dim2D>>(d: usize, p: u128) {
    let m: T = build(d, p);
    let (o, b) = ord2(nd::below(2));
    let g = m.to_grid_index(o);
    if d == 0 { assert!(g.x == 0 && g.y == 0); return }
    let j = nd::below(T::CAP);
    nd::assume(j < d);
    ensure_pos(pc(p, 2, j), d, j, g.x, b[0]);
    ensure_pos(pc(p, 2, j), d, j, g.y, b[1]);
}
fn pos3<T: Idx + MortonIndex<Dimension = morton_index::dimensions::Dim3D>>(d: usize, p: u128) {
    let m: T = build(d, p);
    let (o, b) = ord3(nd::below(6));
    let g = m.to_grid_index(o);
    if d == 0 { assert!(g.x == 0 && g.y == 0 && g.z == 0); return }
    let j = nd::below(T::CAP);
    nd::assume(j < d);
    ensure_pos(pc(p, 3, j), d, j, g.x, b[0]);
    ensure_pos(pc(p, 3, j), d, j, g.y, b[1]);
    ensure_pos(pc(p, 3, j), d, j, g.z, b[2]);
}
pub fn to_grid2<T: Idx + MortonIndex<Dimension = morton_index::dimensions::Dim2D>>() { pos2::<T>(any_depth::<T>(), nd::u128()) }
pub fn to_grid3<T: Idx + MortonIndex<Dimension = morton_index::dimensions::Dim3D>>() { pos3::<T>(any_depth::<T>(), nd::u128()) }
per_type! { to_grid2;
    f2_u8 [6]: F2<u8>, f2_u16 [10]: F2<u16>, f2_u32 [18]: F2<u32>, f2_u64 [34]: F2<u64>, f2_u128 [66]: F2<u128>, f2_usize [34]: F2<usize>,
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
}
per_type! { to_grid3;
    f3_u8 [4]: F3<u8>, f3_u16 [7]: F3<u16>, f3_u32 [12]: F3<u32>, f3_u64 [23]: F3<u64>, f3_u128 [44]: F3<u128>, f3_usize [23]: F3<usize>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [23]: S3<usize>,
}
/// dynamic indices of the given depths
pub mod to_grid_dynamic {
    use super::*;
    obligations! {
        y2_0_3 [66] { pos2::<Y2>(0, nd::u128()); pos2::<Y2>(1, nd::u128()); pos2::<Y2>(2, nd::u128()); pos2::<Y2>(3, nd::u128()) }
        y2_4_5 [66] { pos2::<Y2>(4, nd::u128()); pos2::<Y2>(5, nd::u128()) }
        y2_31 [66] { pos2::<Y2>(31, nd::u128()) }
        y2_64 [66] { pos2::<Y2>(64, nd::u128()) }
        y3_0_3 [66] { pos3::<Y3>(0, nd::u128()); pos3::<Y3>(1, nd::u128()); pos3::<Y3>(2, nd::u128()); pos3::<Y3>(3, nd::u128()) }
        y3_4_5 [66] { pos3::<Y3>(4, nd::u128()); pos3::<Y3>(5, nd::u128()) }
        y3_17 [66] { pos3::<Y3>(17, nd::u128()) }
        y3_42 [66] { pos3::<Y3>(42, nd::u128()) }
    }
}
/// index -> position -> index
macro_rules! back2 { ($t:ty, $from:expr) => { { let d = any_depth::<$t>(); let m: $t = build(d, nd::u128()); let k = nd::below(2); let g = m.to_grid_index(ord2(k).0); let f: fn(Vector2<usize>, usize, morton_index::dimensions::QuadrantOrdering) -> $t = $from; assert!(f(g, d, ord2(k).0) == m, "round trip") } } }
macro_rules! back3 { ($t:ty, $from:expr) => { { let d = any_depth::<$t>(); let m: $t = build(d, nd::u128()); let k = nd::below(6); let g = m.to_grid_index(ord3(k).0); let f: fn(Vector3<usize>, usize, morton_index::dimensions::OctantOrdering) -> $t = $from; assert!(f(g, d, ord3(k).0) == m, "round trip") } } }
pub mod round_trip {
    use super::*;
    obligations! {
        f2_u8 [6] { back2!(F2<u8>, |g, _, o| F2::from_grid_index(g, o)) }
        f2_u16 [10] { back2!(F2<u16>, |g, _, o| F2::from_grid_index(g, o)) }
        f2_u32 [18] { back2!(F2<u32>, |g, _, o| F2::from_grid_index(g, o)) }
        f2_u64 [34] { back2!(F2<u64>, |g, _, o| F2::from_grid_index(g, o)) }
        f2_u128 [66] { back2!(F2<u128>, |g, _, o| F2::from_grid_index(g, o)) }
        s2_u8 [6] { back2!(S2<u8>, |g, d, o| S2::from_grid_index(g, d, o).unwrap()) }
        s2_u16 [10] { back2!(S2<u16>, |g, d, o| S2::from_grid_index(g, d, o).unwrap()) }
        s2_u32 [18] { back2!(S2<u32>, |g, d, o| S2::from_grid_index(g, d, o).unwrap()) }
        s2_u64 [34] { back2!(S2<u64>, |g, d, o| S2::from_grid_index(g, d, o).unwrap()) }
        s2_u128 [66] { back2!(S2<u128>, |g, d, o| S2::from_grid_index(g, d, o).unwrap()) }
        f3_u8 [4] { back3!(F3<u8>, |g, _, o| F3::<u8>::from_grid_index(g, o)) }
        f3_u16 [7] { back3!(F3<u16>, |g, _, o| F3::<u16>::from_grid_index(g, o)) }
        f3_u32 [12] { back3!(F3<u32>, |g, _, o| F3::<u32>::from_grid_index(g, o)) }
        f3_u64 [23] { back3!(F3<u64>, |g, _, o| F3::<u64>::from_grid_index(g, o)) }
        f3_u128 [44] { back3!(F3<u128>, |g, _, o| F3::<u128>::from_grid_index(g, o)) }
        s3_u8 [4] { back3!(S3<u8>, |g, d, o| S3::<u8>::from_grid_index(g, d, o).unwrap()) }
        s3_u16 [7] { back3!(S3<u16>, |g, d, o| S3::<u16>::from_grid_index(g, d, o).unwrap()) }
        s3_u32 [12] { back3!(S3<u32>, |g, d, o| S3::<u32>::from_grid_index(g, d, o).unwrap()) }
        s3_u64 [23] { back3!(S3<u64>, |g, d, o| S3::<u64>::from_grid_index(g, d, o).unwrap()) }
        s3_u128 [44] { back3!(S3<u128>, |g, d, o| S3::<u128>::from_grid_index(g, d, o).unwrap()) }
    }
}
