//! C19: iteration over the cells
use crate::idx::*;
use crate::nd;

/// the n-th call of next yields the cell of level n, and none from the depth on
fn it<T: Idx>(d: usize) {
    let p = nd::u128();
    let m: T = build(d, p);
    let before = m.clone();
    let mut n = 0;
    m.next_cells(&mut |c| {
        match c { Some(c) => assert!(n < d && c == pc(p, T::D, n), "the cells in order"), None => assert!(n >= d, "ends at the depth") }
        n += 1;
        n < T::CAP.min(if T::DYN { d } else { 64 }) + 3
    });
    assert!(m == before, "original unchanged");
}
pub fn cells<T: Idx>() { it::<T>(any_depth::<T>()) }
per_type! { cells;
    f2_u8 [9]: F2<u8>, f2_u16 [13]: F2<u16>, f2_u32 [21]: F2<u32>, f2_u64 [37]: F2<u64>, f2_u128 [69]: F2<u128>, f2_usize [37]: F2<usize>,
    s2_u8 [9]: S2<u8>, s2_u16 [13]: S2<u16>, s2_u32 [21]: S2<u32>, s2_u64 [37]: S2<u64>, s2_u128 [69]: S2<u128>, s2_usize [37]: S2<usize>,
    f3_u8 [9]: F3<u8>, f3_u16 [13]: F3<u16>, f3_u32 [17]: F3<u32>, f3_u64 [27]: F3<u64>, f3_u128 [47]: F3<u128>, f3_usize [27]: F3<usize>,
    s3_u8 [9]: S3<u8>, s3_u16 [13]: S3<u16>, s3_u32 [17]: S3<u32>, s3_u64 [27]: S3<u64>, s3_u128 [47]: S3<u128>, s3_usize [27]: S3<usize>,
}
pub mod dynamic { use super::*; obligations! {
    y2_0_2 [14] { it::<Y2>(0); it::<Y2>(1); it::<Y2>(2) } y2_3_5 [14] { it::<Y2>(3); it::<Y2>(4); it::<Y2>(5) } y2_9 [14] { it::<Y2>(9) }
    y3_0_2 [14] { it::<Y3>(0); it::<Y3>(1); it::<Y3>(2) } y3_3_5 [14] { it::<Y3>(3); it::<Y3>(5) } y3_9 [14] { it::<Y3>(9) }
} }
