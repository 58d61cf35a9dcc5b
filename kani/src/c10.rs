//! C10: descendants
use crate::idx::*;
use crate::nd;
use morton_index::dimensions::Dimension;
use morton_index::*;
use std::num::NonZeroUsize;

fn cell<T: Idx>(c: usize) -> <<T as MortonIndex>::Dimension as Dimension>::Cell { match <<T as MortonIndex>::Dimension as Dimension>::Cell::try_from(c) { Ok(c) => c, Err(_) => panic!() } }
/// append the first `n` cells of `q`
fn check<T: Idx + VariableDepthMortonIndex, const N: usize>(d: usize, n: usize) {
    let (p, q) = (nd::u128(), nd::u128());
    let m: T = build(d, p);
    let before = m.clone();
    let a: [<<T as MortonIndex>::Dimension as Dimension>::Cell; N] = std::array::from_fn(|l| cell::<T>(if l < T::CAP { pc(q, T::D, l) } else { 0 }));
    let r = m.descendant(&a[..n]);
    let s = ptrunc(p, T::D, d) | pshr(ptrunc(q, T::D, if n < T::CAP { n } else { T::CAP }), T::D, d);
    if d + n > T::CAP && !T::DYN { assert!(r.is_none(), "none beyond the capacity"); }
    else {
        let e = r.unwrap();
        ensure_is(&e, d + n, s);
        if n > 0 { assert!(e.ancestor(NonZeroUsize::new(n).unwrap()).unwrap() == m, "ancestor by the appended cells is the original"); } else { assert!(e == m); }
    }
    assert!(m == before, "original unchanged");
}
fn child<T: Idx + VariableDepthMortonIndex>(d: usize) {
    let p = nd::u128();
    let m: T = build(d, p);
    let c = nd::below(1 << T::D);
    let r = m.child(cell::<T>(c));
    if d + 1 > T::CAP { assert!(r.is_none()) } else { let e = r.unwrap(); ensure_is(&e, d + 1, pset(p, T::D, d, c)); assert!(e.parent().unwrap() == m) }
}
pub fn children<T: Idx + VariableDepthMortonIndex>() { child::<T>(any_depth::<T>()) }
per_type! { children;
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [23]: S3<usize>,
}
/// any depth, any number of cells up to two beyond the capacity
pub fn d4<T: Idx + VariableDepthMortonIndex>() { check::<T, 4>(any_depth::<T>(), nd::below(5)) }
pub fn d6<T: Idx + VariableDepthMortonIndex>() { check::<T, 6>(any_depth::<T>(), nd::below(7)) }
pub fn d7<T: Idx + VariableDepthMortonIndex>() { check::<T, 7>(any_depth::<T>(), nd::below(8)) }
pub fn d10<T: Idx + VariableDepthMortonIndex>() { check::<T, 10>(any_depth::<T>(), nd::below(11)) }
pub fn d12<T: Idx + VariableDepthMortonIndex>() { check::<T, 12>(any_depth::<T>(), nd::below(13)) }
pub fn d18<T: Idx + VariableDepthMortonIndex>() { check::<T, 18>(any_depth::<T>(), nd::below(19)) }
per_type! { d4 [6] s3_u8: S3<u8> }
per_type! { d6 [8] s2_u8: S2<u8> }
per_type! { d7 [9] s3_u16: S3<u16> }
per_type! { d10 [12] s2_u16: S2<u16> }
per_type! { d12 [14] s3_u32: S3<u32> }
per_type! { d18 [20] s2_u32: S2<u32> }
/// any depth, zero to three cells; and as many as a wide type can hold
pub fn few<T: Idx + VariableDepthMortonIndex>() { check::<T, 3>(any_depth::<T>(), nd::below(4)) }
per_type! { few;
    s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>,
}
pub fn all<T: Idx + VariableDepthMortonIndex>() { check::<T, 70>(0, T::CAP); check::<T, 70>(1, T::CAP); check::<T, 70>(3, T::CAP - 3) }
per_type! { all [72] s2_u64: S2<u64>, s2_u128: S2<u128>, s3_u64: S3<u64>, s3_u128: S3<u128> }
pub mod dynamic {
    use super::*;
    fn dy<T: Idx + VariableDepthMortonIndex>(d: usize, n: usize) { check::<T, 9>(d, n) }
    obligations! {
        y2_0 [12] { dy::<Y2>(0, 0); dy::<Y2>(0, 1); dy::<Y2>(0, 4); dy::<Y2>(0, 5) }
        y2_1 [12] { dy::<Y2>(1, 0); dy::<Y2>(1, 1); dy::<Y2>(1, 3); dy::<Y2>(1, 4) }
        y2_3 [12] { dy::<Y2>(3, 1); dy::<Y2>(3, 2); dy::<Y2>(3, 5) }
        y2_4 [12] { dy::<Y2>(4, 0); dy::<Y2>(4, 1); dy::<Y2>(4, 4) }
        y2_7 [12] { dy::<Y2>(7, 2) } y2_8 [12] { dy::<Y2>(8, 1) }
        y3_0 [12] { dy::<Y3>(0, 0); dy::<Y3>(0, 1); dy::<Y3>(0, 3) }
        y3_1 [12] { dy::<Y3>(1, 0); dy::<Y3>(1, 1); dy::<Y3>(1, 2) }
        y3_2 [12] { dy::<Y3>(2, 1); dy::<Y3>(2, 4) }
        y3_5 [12] { dy::<Y3>(5, 0); dy::<Y3>(5, 1) }
        y3_8 [12] { dy::<Y3>(8, 1) } y3_6 [12] { dy::<Y3>(6, 2) }
        c2 [12] { child::<Y2>(0); child::<Y2>(3); child::<Y2>(4) }
        c3 [12] { child::<Y3>(0); child::<Y3>(2); child::<Y3>(5) }
    }
}
