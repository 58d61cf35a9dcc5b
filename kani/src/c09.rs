//! C09: ancestors
use crate::idx::*;
use crate::nd;
use morton_index::*;
use std::num::NonZeroUsize;

fn check<T: Idx + VariableDepthMortonIndex>(d: usize, g: usize, w: usize) {
    let p = nd::u128();
    let m: T = build(d, p);
    let before = m.clone();
    match m.ancestor(NonZeroUsize::new(g).unwrap()) {
        Some(a) => { assert!(g <= d, "exists only up to the depth"); ensure_is(&a, d - g, p); assert!(a == build(d - g, p), "and nothing else") }
        None => assert!(g > d, "exists up to the depth"),
    }
    match m.parent() {
        Some(a) => { assert!(d > 0); ensure_is(&a, d - 1, p) }
        None => assert!(d == 0),
    }
    match m.with_depth(w) {
        Some(a) => { assert!(w <= d); ensure_is(&a, w, p); }
        None => assert!(w > d),
    }
    assert!(m == before, "original unchanged");
}
pub fn ancestor<T: Idx + VariableDepthMortonIndex>() {
    let g = nd::usize();
    nd::assume(g > 0);
    check::<T>(any_depth::<T>(), g, nd::usize())
}
per_type! { ancestor;
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [23]: S3<usize>,
}
fn dynamic<T: Idx + VariableDepthMortonIndex>(d: usize) { for g in 1..d + 2 { check::<T>(d, g, if g <= d { d - g } else { g }) } }
pub mod dynamic {
    use super::dynamic as dy;
    use super::*;
    obligations! {
        y2_0 [12] { dy::<Y2>(0) } y2_1 [12] { dy::<Y2>(1) } y2_2 [12] { dy::<Y2>(2) } y2_3 [12] { dy::<Y2>(3) } y2_4 [12] { dy::<Y2>(4) } y2_5 [12] { dy::<Y2>(5) } y2_7 [12] { check::<Y2>(7, 3, 5) } y2_9 [12] { check::<Y2>(9, 2, 4) }
        y3_0 [12] { dy::<Y3>(0) } y3_1 [12] { dy::<Y3>(1) } y3_2 [12] { dy::<Y3>(2) } y3_3 [12] { dy::<Y3>(3) } y3_4 [12] { dy::<Y3>(4) } y3_5 [12] { check::<Y3>(5, 2, 1) } y3_8 [12] { check::<Y3>(8, 2, 3) } y3_9 [12] { check::<Y3>(9, 1, 8) }
    }
}
