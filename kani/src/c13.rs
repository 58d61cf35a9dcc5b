//! C13: inversion; C19: iteration over the cells
use crate::idx::*;
use crate::nd;

fn inv<T: Idx>(d: usize) {
    let p = nd::u128();
    let m: T = build(d, p);
    let before = m.clone();
    let i = m.inverted();
    ensure_cells(&i, d, |j| pc(p, T::D, d - 1 - j));
    assert!(m == before, "original unchanged");
}
pub fn inverted<T: Idx>() { inv::<T>(any_depth::<T>()) }
/// Twice is the original. (For the types not listed it follows: the cells are reversed twice, and by C08 equal cells mean equal indices.)
fn inv2<T: Idx>(d: usize) { let m: T = build(d, nd::u128()); assert!(m.inverted().inverted() == m, "twice is the original"); }
pub fn twice<T: Idx>() { inv2::<T>(any_depth::<T>()) }
per_type! { twice;
    f2_u8 [6]: F2<u8>, f2_u32 [18]: F2<u32>, f2_u128 [66]: F2<u128>, s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>,
    f3_u8 [4]: F3<u8>, f3_u32 [12]: F3<u32>, f3_u128 [44]: F3<u128>, s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>,
}
per_type! { inverted;
    f2_u8 [6]: F2<u8>, f2_u16 [10]: F2<u16>, f2_u32 [18]: F2<u32>, f2_u64 [34]: F2<u64>, f2_u128 [66]: F2<u128>, f2_usize [34]: F2<usize>,
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
    f3_u8 [6]: F3<u8>, f3_u16 [7]: F3<u16>, f3_u32 [12]: F3<u32>, f3_u64 [23]: F3<u64>, f3_u128 [44]: F3<u128>, f3_usize [24]: F3<usize>,
    s3_u8 [6]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [24]: S3<usize>,
}
pub mod dynamic { use super::*; obligations! {
    y2_0_2 [12] { inv::<Y2>(0); inv::<Y2>(1); inv::<Y2>(2) } y2_3 [12] { inv::<Y2>(3) } y2_4 [12] { inv::<Y2>(4) } y2_5 [12] { inv::<Y2>(5) } y2_8 [12] { inv::<Y2>(8) } t2 [12] { inv2::<Y2>(3); inv2::<Y2>(5) }
    y3_0_2 [12] { inv::<Y3>(0); inv::<Y3>(1); inv::<Y3>(2) } y3_3 [12] { inv::<Y3>(3) } y3_4 [12] { inv::<Y3>(4) } y3_5 [12] { inv::<Y3>(5) } y3_8 [12] { inv::<Y3>(8) } t3 [12] { inv2::<Y3>(2); inv2::<Y3>(3) }
} }
