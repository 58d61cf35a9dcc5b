//! C11: conversions between storage flavours
use crate::idx::*;
use crate::nd;

/// fixed -> static and static -> fixed, any width
macro_rules! fs { ($f:ty, $s:ty) => { {
    const CAP: usize = <$f as Idx>::CAP;
    let p = nd::u128();
    let f: $f = build(CAP, p);
    let s = <$s>::from(f);
    ensure_is(&s, CAP, p);
    assert!(s == build(CAP, p));
    let d = any_depth::<$s>();
    let s: $s = build(d, p);
    let f = <$f>::from(s);
    ensure_is(&f, CAP, ptrunc(p, <$f as Idx>::D, d));
    assert!(f == build(CAP, ptrunc(p, <$f as Idx>::D, d)));
} } }
pub mod fixed_static { use super::*; obligations! {
    u8_2 [6] { fs!(F2<u8>, S2<u8>) } u16_2 [10] { fs!(F2<u16>, S2<u16>) } u32_2 [18] { fs!(F2<u32>, S2<u32>) } u64_2 [34] { fs!(F2<u64>, S2<u64>) } u128_2 [66] { fs!(F2<u128>, S2<u128>) } usize_2 [34] { fs!(F2<usize>, S2<usize>) }
    u8_3 [6] { fs!(F3<u8>, S3<u8>) } u16_3 [10] { fs!(F3<u16>, S3<u16>) } u32_3 [14] { fs!(F3<u32>, S3<u32>) } u64_3 [24] { fs!(F3<u64>, S3<u64>) } u128_3 [44] { fs!(F3<u128>, S3<u128>) } usize_3 [24] { fs!(F3<usize>, S3<usize>) }
} }
/// fixed -> dynamic
macro_rules! fd { ($f:ty, $y:ty) => { {
    const CAP: usize = <$f as Idx>::CAP;
    let p = nd::u128();
    let f: $f = build(CAP, p);
    let y = <$y>::from(f);
    ensure_is(&y, CAP, p);
    assert!(y == build(CAP, p), "canonical");
} } }
pub mod fixed_dynamic { use super::*; obligations! {
    u8_2 [6] { fd!(F2<u8>, Y2) } u16_2 [10] { fd!(F2<u16>, Y2) } u32_2 [18] { fd!(F2<u32>, Y2) } u64_2 [34] { fd!(F2<u64>, Y2) } u128_2 [66] { fd!(F2<u128>, Y2) }
    u8_3 [6] { fd!(F3<u8>, Y3) } u16_3 [10] { fd!(F3<u16>, Y3) } u32_3 [14] { fd!(F3<u32>, Y3) } u64_3 [24] { fd!(F3<u64>, Y3) } u128_3 [44] { fd!(F3<u128>, Y3) }
} }
/// static -> dynamic at a concrete depth
macro_rules! sd { ($s:ty, $y:ty, $($d:literal)*) => { { $( {
    let p = nd::u128();
    let s: $s = build($d, p);
    let y = <$y>::from(s);
    ensure_is(&y, $d, p);
    assert!(y == build($d, p), "canonical");
} )* } } }
pub mod static_dynamic { use super::*; obligations! {
    u8_2 [6] { sd!(S2<u8>, Y2, 0 1 2 3 4) } u16_2 [10] { sd!(S2<u16>, Y2, 0 3 5 8) } u32_2 [18] { sd!(S2<u32>, Y2, 1 4) } u64_2 [34] { sd!(S2<u64>, Y2, 2 9) } u128_2 [66] { sd!(S2<u128>, Y2, 1 6) }
    u8_3 [6] { sd!(S3<u8>, Y3, 0 1 2) } u16_3 [10] { sd!(S3<u16>, Y3, 0 1 3 5) } u32_3 [14] { sd!(S3<u32>, Y3, 1 4) } u64_3 [24] { sd!(S3<u64>, Y3, 2 6) } u128_3 [44] { sd!(S3<u128>, Y3, 1 5) }
} }
/// dynamic of a concrete depth -> fixed and static
macro_rules! dx { ($y:ty, $f:ty, $s:ty, $($d:literal)*) => { { $( {
    const CAP: usize = <$f as Idx>::CAP;
    const D: usize = <$f as Idx>::D;
    let p = nd::u128();
    let y: $y = build($d, p);
    let f = <$f>::try_from(y.clone());
    let s = <$s>::try_from(y);
    if $d > CAP { assert!(is_limit(f, CAP)); assert!(is_limit(s, CAP)); }
    else {
        let f = f.unwrap();
        ensure_is(&f, CAP, ptrunc(p, D, $d));
        let s = s.unwrap();
        ensure_is(&s, $d, p);
        assert!(s == build($d, p) && f == build(CAP, ptrunc(p, D, $d)), "canonical");
    }
} )* } } }
pub mod dynamic_others { use super::*; obligations! {
    u8_2a [7] { dx!(Y2, F2<u8>, S2<u8>, 0 1 2) } u8_2b [7] { dx!(Y2, F2<u8>, S2<u8>, 3 4 5) } u16_2 [12] { dx!(Y2, F2<u16>, S2<u16>, 1 5 9) } u32_2 [20] { dx!(Y2, F2<u32>, S2<u32>, 3 17) } u64_2 [36] { dx!(Y2, F2<u64>, S2<u64>, 2 7) } u128_2 [66] { dx!(Y2, F2<u128>, S2<u128>, 1 5) }
    u8_3 [6] { dx!(Y3, F3<u8>, S3<u8>, 0 1 2 3) } u16_3 [10] { dx!(Y3, F3<u16>, S3<u16>, 1 3 5 6) } u32_3 [14] { dx!(Y3, F3<u32>, S3<u32>, 3 11) } u64_3 [24] { dx!(Y3, F3<u64>, S3<u64>, 2 5) } u128_3 [44] { dx!(Y3, F3<u128>, S3<u128>, 1 4) }
    full_u16_2 [12] { dx!(Y2, F2<u16>, S2<u16>, 8) } full_u32_2 [20] { dx!(Y2, F2<u32>, S2<u32>, 16) } full_u64_2 [36] { dx!(Y2, F2<u64>, S2<u64>, 32) } full_u64_3 [24] { dx!(Y3, F3<u64>, S3<u64>, 21) } limit_u64_2 [36] { dx!(Y2, F2<u64>, S2<u64>, 33) } limit_u128_2 [68] { dx!(Y2, F2<u128>, S2<u128>, 64) }
} }
