//! C07: order
use crate::idx::*;
use crate::nd;
use std::cmp::Ordering;

/// depth-first tree order on (depth, cells): the first differing level decides, an ancestor comes first
fn spec(da: usize, a: u128, db: usize, b: u128, d: usize) -> Ordering {
    let m = if da < db { da } else { db };
    let (x, y) = (ptrunc(a, d, m), ptrunc(b, d, m));
    if x < y { Ordering::Less } else if x > y { Ordering::Greater } else if da < db { Ordering::Less } else if da > db { Ordering::Greater } else { Ordering::Equal }
}
fn pair<T: Idx>(da: usize, db: usize) {
    let (a, b) = (nd::u128(), nd::u128());
    let (x, y): (T, T) = (build(da, a), build(db, b));
    let s = spec(da, a, db, b, T::D);
    assert!(x.cmp(&y) == s, "cmp");
    assert!(x.partial_cmp(&y) == Some(s), "partial_cmp");
    assert!(y.cmp(&x) == s.reverse(), "antisymmetric");
    assert!((x == y) == (s == Ordering::Equal), "agrees with equality");
    assert!((x < y) == (s == Ordering::Less) && (x > y) == (s == Ordering::Greater) && (x <= y) == (s != Ordering::Greater) && (x >= y) == (s != Ordering::Less), "operators");
}
pub fn cmp<T: Idx>() { pair::<T>(any_depth::<T>(), any_depth::<T>()) }
per_type! { cmp;
    f2_u8 [6]: F2<u8>, f2_u16 [10]: F2<u16>, f2_u32 [18]: F2<u32>, f2_u64 [34]: F2<u64>, f2_u128 [66]: F2<u128>, f2_usize [34]: F2<usize>,
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
    f3_u8 [4]: F3<u8>, f3_u16 [7]: F3<u16>, f3_u32 [12]: F3<u32>, f3_u64 [23]: F3<u64>, f3_u128 [44]: F3<u128>, f3_usize [23]: F3<usize>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [23]: S3<usize>,
}
pub mod dynamic {
    use super::*;
    obligations! {
        y2_0_0 [8] { pair::<Y2>(0, 0) } y2_0_1 [8] { pair::<Y2>(0, 1) } y2_1_1 [8] { pair::<Y2>(1, 1) } y2_2_1 [8] { pair::<Y2>(2, 1) } y2_2_2 [8] { pair::<Y2>(2, 2) } y2_2_3 [8] { pair::<Y2>(2, 3) } y2_4_5 [8] { pair::<Y2>(4, 5) } y2_5_5 [8] { pair::<Y2>(5, 5) }
        y3_0_0 [8] { pair::<Y3>(0, 0) } y3_0_1 [8] { pair::<Y3>(0, 1) } y3_1_1 [8] { pair::<Y3>(1, 1) } y3_2_1 [8] { pair::<Y3>(2, 1) } y3_2_2 [8] { pair::<Y3>(2, 2) } y3_2_3 [8] { pair::<Y3>(2, 3) } y3_3_3 [8] { pair::<Y3>(3, 3) }
    }
}
