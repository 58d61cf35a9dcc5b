//! C01: cell access on fixed-depth and static indices
use crate::idx::*;
use crate::nd;

/// requires level < depth, cell in range; ensures cells' == cells[level := cell], depth' == depth
pub fn set_get<T: Idx>() {
    let d = any_depth::<T>();
    let p = nd::u128();
    let mut m: T = build(d, p);
    let l = nd::below(T::CAP);
    nd::assume(l < d);
    let c = nd::below(1 << T::D);
    m.set(l, c);
    ensure_is(&m, d, pset(p, T::D, l, c));
    let d2 = nd::below(1 << T::D);
    m.set(l, d2);
    assert!(m.get(l) == d2);
}
per_type! { set_get;
    f2_u8 [6]: F2<u8>, f2_u16 [10]: F2<u16>, f2_u32 [18]: F2<u32>, f2_u64 [34]: F2<u64>, f2_u128 [66]: F2<u128>, f2_usize [34]: F2<usize>,
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
    f3_u8 [4]: F3<u8>, f3_u16 [7]: F3<u16>, f3_u32 [12]: F3<u32>, f3_u64 [23]: F3<u64>, f3_u128 [44]: F3<u128>, f3_usize [23]: F3<usize>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [23]: S3<usize>,
}
