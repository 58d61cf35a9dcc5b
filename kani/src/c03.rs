//! C03: construction from cells; zeroed; default
use crate::idx::*;
use crate::nd;

/// the first `n` cells of `p` as an array (filled up with zero cells)
/// the cells of `p` as an array (filled up with zero cells)
fn cells<T: Idx, const N: usize>(p: u128) -> [T::C; N] {
    let mut a = [T::cell(0); N];
    for l in 0..N { if l < T::CAP { a[l] = T::cell(pc(p, T::D, l)); } }
    a
}
/// slice of n cells: depth and cells as given (deeper levels of a fixed-depth index zero), limit error iff n > capacity
fn ensure_slice<T: Idx>(a: &[T::C], p: u128) {
    let n = a.len();
    let r = T::slice(a);
    if n > T::CAP { assert!(is_limit(r, T::CAP), "limit error with the maximum"); return; }
    match r {
        Ok(m) => ensure_is(&m, if T::FIXED { T::CAP } else { n }, ptrunc(p, T::D, n)),
        Err(_) => assert!(false, "rejected although it fits"),
    }
}
fn any_len<T: Idx, const N: usize>() {
    let p = nd::u128();
    let n = nd::below(N + 1);
    let a = cells::<T, N>(p);
    ensure_slice::<T>(&a[..n], p);
}
/// every length up to two beyond the capacity
pub fn s4<T: Idx>() { any_len::<T, 4>() }
pub fn s6<T: Idx>() { any_len::<T, 6>() }
pub fn s7<T: Idx>() { any_len::<T, 7>() }
pub fn s10<T: Idx>() { any_len::<T, 10>() }
pub fn s12<T: Idx>() { any_len::<T, 12>() }
pub fn s18<T: Idx>() { any_len::<T, 18>() }
pub fn s23<T: Idx>() { any_len::<T, 23>() }
pub fn s34<T: Idx>() { any_len::<T, 34>() }
pub fn s44<T: Idx>() { any_len::<T, 44>() }
pub fn s66<T: Idx>() { any_len::<T, 66>() }
per_type! { s4 [6] f3_u8: F3<u8>, s3_u8: S3<u8> }
per_type! { s6 [8] f2_u8: F2<u8>, s2_u8: S2<u8> }
per_type! { s7 [9] f3_u16: F3<u16>, s3_u16: S3<u16> }
per_type! { s10 [12] f2_u16: F2<u16>, s2_u16: S2<u16> }
per_type! { s12 [14] f3_u32: F3<u32>, s3_u32: S3<u32> }
per_type! { s18 [20] f2_u32: F2<u32>, s2_u32: S2<u32> }
per_type! { s23 [25] f3_u64: F3<u64>, s3_u64: S3<u64>, f3_usize: F3<usize>, s3_usize: S3<usize> }
per_type! { s34 [36] f2_u64: F2<u64>, s2_u64: S2<u64>, f2_usize: F2<usize>, s2_usize: S2<usize> }
per_type! { s44 [46] f3_u128: F3<u128>, s3_u128: S3<u128> }
per_type! { s66 [68] f2_u128: F2<u128>, s2_u128: S2<u128> }
/// lengths 0, half, capacity and one beyond it
pub fn some_lengths<T: Idx>() {
    let p = nd::u128();
    let a = cells::<T, 65>(p);
    ensure_slice::<T>(&a[..0], p);
    ensure_slice::<T>(&a[..T::CAP / 2 + 1], p);
    ensure_slice::<T>(&a[..T::CAP], p);
    ensure_slice::<T>(&a[..T::CAP + 1], p);
}
per_type! { some_lengths [67]
    f2_u64: F2<u64>, f2_u128: F2<u128>, s2_u64: S2<u64>, s2_u128: S2<u128>, 
    f3_u64: F3<u64>, f3_u128: F3<u128>, s3_u64: S3<u64>, s3_u128: S3<u128>,
}
/// array of N cells
fn array<T: Idx + TryFrom<[<T as Idx>::C; N], Error = morton_index::Error>, const N: usize>() {
    let p = nd::u128();
    let r = T::try_from(cells::<T, N>(p));
    if N > T::CAP { assert!(is_limit(r, T::CAP), "limit error with the maximum"); return; }
    match r {
        Ok(m) => ensure_is(&m, if T::FIXED { T::CAP } else { N }, ptrunc(p, T::D, N)),
        Err(_) => assert!(false, "rejected although it fits"),
    }
}
pub mod arrays {
    use super::*;
    obligations! {
        f2_u8 [8] { array::<F2<u8>, 0>(); array::<F2<u8>, 3>(); array::<F2<u8>, 4>(); array::<F2<u8>, 5>(); }
        s2_u8 [8] { array::<S2<u8>, 0>(); array::<S2<u8>, 3>(); array::<S2<u8>, 4>(); array::<S2<u8>, 5>(); }
        f3_u8 [8] { array::<F3<u8>, 0>(); array::<F3<u8>, 1>(); array::<F3<u8>, 2>(); array::<F3<u8>, 3>(); }
        s3_u8 [8] { array::<S3<u8>, 0>(); array::<S3<u8>, 1>(); array::<S3<u8>, 2>(); array::<S3<u8>, 3>(); }
        f2_u16 [12] { array::<F2<u16>, 0>(); array::<F2<u16>, 5>(); array::<F2<u16>, 8>(); array::<F2<u16>, 9>(); }
        s2_u16 [12] { array::<S2<u16>, 0>(); array::<S2<u16>, 5>(); array::<S2<u16>, 8>(); array::<S2<u16>, 9>(); }
        f3_u16 [8] { array::<F3<u16>, 0>(); array::<F3<u16>, 4>(); array::<F3<u16>, 5>(); array::<F3<u16>, 6>(); }
        s3_u16 [8] { array::<S3<u16>, 0>(); array::<S3<u16>, 4>(); array::<S3<u16>, 5>(); array::<S3<u16>, 6>(); }
        f2_u32 [20] { array::<F2<u32>, 1>(); array::<F2<u32>, 16>(); array::<F2<u32>, 17>(); }
        s2_u32 [20] { array::<S2<u32>, 1>(); array::<S2<u32>, 16>(); array::<S2<u32>, 17>(); }
        f3_u32 [20] { array::<F3<u32>, 1>(); array::<F3<u32>, 10>(); array::<F3<u32>, 11>(); }
        s3_u32 [20] { array::<S3<u32>, 1>(); array::<S3<u32>, 10>(); array::<S3<u32>, 11>(); }
        f2_u64 [36] { array::<F2<u64>, 7>(); array::<F2<u64>, 32>(); array::<F2<u64>, 33>(); }
        s2_u64 [36] { array::<S2<u64>, 7>(); array::<S2<u64>, 32>(); array::<S2<u64>, 33>(); }
        f3_u64 [36] { array::<F3<u64>, 7>(); array::<F3<u64>, 21>(); array::<F3<u64>, 22>(); }
        s3_u64 [36] { array::<S3<u64>, 7>(); array::<S3<u64>, 21>(); array::<S3<u64>, 22>(); }
        f2_u128 [68] { array::<F2<u128>, 9>(); array::<F2<u128>, 64>(); array::<F2<u128>, 65>(); }
        s2_u128 [68] { array::<S2<u128>, 9>(); array::<S2<u128>, 64>(); array::<S2<u128>, 65>(); }
        f3_u128 [68] { array::<F3<u128>, 9>(); array::<F3<u128>, 42>(); array::<F3<u128>, 43>(); }
        s3_u128 [68] { array::<S3<u128>, 9>(); array::<S3<u128>, 42>(); array::<S3<u128>, 43>(); }
    }
}
/// default and zeroed: documented depth, only zero cells, limit for static zeroed
pub fn fixed_default<T: Idx + Default>() { ensure_is(&T::default(), if T::FIXED { T::CAP } else { 0 }, 0) }
per_type! { fixed_default [3]
    f2_u8: F2<u8>, f2_u16: F2<u16>, f2_u32: F2<u32>, f2_u64: F2<u64>, f2_u128: F2<u128>, f2_usize: F2<usize>,
    f3_u8: F3<u8>, f3_u16: F3<u16>, f3_u32: F3<u32>, f3_u64: F3<u64>, f3_u128: F3<u128>, f3_usize: F3<usize>,
    s2_u8: S2<u8>, s2_u16: S2<u16>, s2_u32: S2<u32>, s2_u64: S2<u64>, s2_u128: S2<u128>, s2_usize: S2<usize>,
    s3_u8: S3<u8>, s3_u16: S3<u16>, s3_u32: S3<u32>, s3_u64: S3<u64>, s3_u128: S3<u128>, s3_usize: S3<usize>,
    y2: Y2, y3: Y3,
}
macro_rules! zeroed { ($t:ty, $cap:literal) => { {
    let d = nd::u8();
    match <$t>::zeroed(d) {
        Some(m) => { assert!(d as usize <= $cap); ensure_is(&m, d as usize, 0) }
        None => assert!(d as usize > $cap),
    }
} } }
pub mod static_zeroed {
    use super::*;
    obligations! {
        s2_u8 [3] { zeroed!(S2<u8>, 4) } s2_u16 [3] { zeroed!(S2<u16>, 8) } s2_u32 [3] { zeroed!(S2<u32>, 16) } s2_u64 [3] { zeroed!(S2<u64>, 32) } s2_u128 [3] { zeroed!(S2<u128>, 64) }
        s3_u8 [3] { zeroed!(S3<u8>, 2) } s3_u16 [3] { zeroed!(S3<u16>, 5) } s3_u32 [3] { zeroed!(S3<u32>, 10) } s3_u64 [3] { zeroed!(S3<u64>, 21) } s3_u128 [3] { zeroed!(S3<u128>, 42) }
    }
}
/// dynamic indices from slices of concrete lengths (bounded stand-in beside the Verus proof)
fn dyn_slice<T: Idx>(n: usize) { let p = nd::u128(); let a = cells::<T, 12>(p); ensure_slice::<T>(&a[..n], p) }
pub mod dynamic {
    use super::*;
    obligations! {
        y2_0 [14] { dyn_slice::<Y2>(0) } y2_1 [14] { dyn_slice::<Y2>(1) } y2_3 [14] { dyn_slice::<Y2>(3) } y2_4 [14] { dyn_slice::<Y2>(4) } y2_5 [14] { dyn_slice::<Y2>(5) } y2_8 [14] { dyn_slice::<Y2>(8) } y2_9 [14] { dyn_slice::<Y2>(9) }
        y3_0 [14] { dyn_slice::<Y3>(0) } y3_1 [14] { dyn_slice::<Y3>(1) } y3_2 [14] { dyn_slice::<Y3>(2) } y3_3 [14] { dyn_slice::<Y3>(3) } y3_5 [14] { dyn_slice::<Y3>(5) } y3_6 [14] { dyn_slice::<Y3>(6) } y3_8 [14] { dyn_slice::<Y3>(8) }
        a2 [14] { array::<Y2, 0>(); array::<Y2, 1>(); array::<Y2, 5>() }
        a3 [14] { array::<Y3, 0>(); array::<Y3, 1>(); array::<Y3, 3>(); array::<Y3, 6>() }
        z2 [14] { for d in 0..10 { ensure_is(&Y2::zeroed(d), d, 0) } }
        z3 [14] { for d in 0..10 { ensure_is(&Y3::zeroed(d), d, 0) } }
    }
}
