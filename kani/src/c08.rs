//! C08: equality depends only on depth and cells; equal indices hash equally
use crate::idx::*;
use crate::nd;
use morton_index::dimensions::*;
use morton_index::nalgebra::*;
use morton_index::*;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;

/// records what is hashed (a cheap mixing of all bytes written)
#[derive(Default)]
struct H { v: u64, n: u64 }
impl Hasher for H {
    fn finish(&self) -> u64 { self.v ^ self.n }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u8(*x) } }
    fn write_u8(&mut self, x: u8) { self.v = self.v.rotate_left(7) ^ x as u64; self.n += 1; }
    fn write_u16(&mut self, x: u16) { self.v = self.v.rotate_left(7) ^ x as u64; self.n += 1; }
    fn write_u32(&mut self, x: u32) { self.v = self.v.rotate_left(7) ^ x as u64; self.n += 1; }
    fn write_u64(&mut self, x: u64) { self.v = self.v.rotate_left(7) ^ x; self.n += 1; }
    fn write_u128(&mut self, x: u128) { self.v = self.v.rotate_left(7) ^ x as u64 ^ ((x >> 64) as u64).rotate_left(31); self.n += 1; }
    fn write_usize(&mut self, x: usize) { self.v = self.v.rotate_left(7) ^ x as u64; self.n += 1; }
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = H::default(); t.hash(&mut h); h.finish() }

fn eq_pair<T: Idx>(da: usize, db: usize) {
    let (a, b) = (nd::u128(), nd::u128());
    let (x, y): (T, T) = (build(da, a), build(db, b));
    let same = da == db && ptrunc(a, T::D, da) == ptrunc(b, T::D, db);
    assert!((x == y) == same, "equal iff same depth and cells");
    assert!((x != y) == !same);
    if same { assert!(hash(&x) == hash(&y), "equal indices hash equally"); }
    assert!(x.clone() == x);
}
pub fn eq<T: Idx>() { eq_pair::<T>(any_depth::<T>(), any_depth::<T>()) }
per_type! { eq;
    f2_u8 [6]: F2<u8>, f2_u16 [10]: F2<u16>, f2_u32 [18]: F2<u32>, f2_u64 [34]: F2<u64>, f2_u128 [66]: F2<u128>, f2_usize [34]: F2<usize>,
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>, s2_u128 [66]: S2<u128>, s2_usize [34]: S2<usize>,
    f3_u8 [4]: F3<u8>, f3_u16 [7]: F3<u16>, f3_u32 [12]: F3<u32>, f3_u64 [23]: F3<u64>, f3_u128 [44]: F3<u128>, f3_usize [23]: F3<usize>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>, s3_u128 [44]: S3<u128>, s3_usize [23]: S3<usize>,
}
/// A step of a history produces exactly the canonical value of its abstract result, from any canonical value.
/// By induction over histories every reachable index is canonical, so `eq` above decides equality for all of them.
fn step<T: Idx + VariableDepthMortonIndex>(d: usize, g: usize) {
    let p = nd::u128();
    let m: T = build(d, p);
    if g > 0 && g <= d {
        let a = m.ancestor(NonZeroUsize::new(g).unwrap()).unwrap();
        assert!(a == build(d - g, p), "ancestor is canonical");
    }
    if d < T::CAP {
        let c = nd::below(1 << T::D);
        let e = m.descendant(&[cell::<T>(c)]).unwrap();
        assert!(e == build(d + 1, pset(p, T::D, d, c)), "descendant is canonical");
    }
}
fn cell<T: Idx>(c: usize) -> <<T as MortonIndex>::Dimension as Dimension>::Cell { match <<T as MortonIndex>::Dimension as Dimension>::Cell::try_from(c) { Ok(c) => c, Err(_) => panic!() } }
pub fn steps<T: Idx + VariableDepthMortonIndex>() { let d = any_depth::<T>(); step::<T>(d, nd::below(T::CAP + 1)) }
per_type! { steps;
    s2_u8 [6]: S2<u8>, s2_u16 [10]: S2<u16>, s2_u32 [18]: S2<u32>, s2_u64 [34]: S2<u64>,
    s3_u8 [4]: S3<u8>, s3_u16 [7]: S3<u16>, s3_u32 [12]: S3<u32>, s3_u64 [23]: S3<u64>,
}
/// construction from raw bits ignores the bits that belong to no level
macro_rules! raw { ($b:ident) => { {
    let r = nd::$b();
    let m = F3::<$b>::from_raw_index(r);
    let n: F3<$b> = build(<F3<$b> as Idx>::CAP, (r as u128) << (128 - <$b>::BITS));
    assert!(m == n, "fixed: raw construction is canonical");
    let d = any_depth::<S3<$b>>();
    let m = S3::<$b>::from_raw_index(r, d as u8);
    let n: S3<$b> = build(d, (r as u128) << (128 - <$b>::BITS));
    assert!(m == n, "static: raw construction is canonical");
} } }
pub mod raw { use super::*; obligations! { u8 [6] { raw!(u8) } u16 [10] { raw!(u16) } u32 [14] { raw!(u32) } u64 [24] { raw!(u64) } u128 [66] { raw!(u128) } usize [24] { raw!(usize) } } }
/// construction from grid positions and slices is canonical
macro_rules! made2 { ($b:ident) => { {
    let g = Vector2::new(nd::usize(), nd::usize());
    let k = nd::below(2);
    let m = F2::<$b>::from_grid_index(g, ord2(k).0);
    let mut p = 0u128;
    for l in 0..<F2<$b> as Idx>::CAP { p = pset(p, 2, l, m.get(l)); }
    assert!(m == build(<F2<$b> as Idx>::CAP, p));
    let d = any_depth::<S2<$b>>();
    let m = S2::<$b>::from_grid_index(g, d, ord2(k).0).unwrap();
    let mut p = 0u128;
    for l in 0..<F2<$b> as Idx>::CAP { if l < d { p = pset(p, 2, l, m.get(l)); } }
    assert!(m == build(d, p));
} } }
macro_rules! made3 { ($b:ident) => { {
    let g = Vector3::new(nd::usize(), nd::usize(), nd::usize());
    let o = ord3(nd::below(6)).0;
    let m = F3::<$b>::from_grid_index(g, o);
    let mut p = 0u128;
    for l in 0..<F3<$b> as Idx>::CAP { p = pset(p, 3, l, m.get(l)); }
    assert!(m == build(<F3<$b> as Idx>::CAP, p));
    let d = any_depth::<S3<$b>>();
    let m = S3::<$b>::from_grid_index(g, d, o).unwrap();
    let mut p = 0u128;
    for l in 0..<F3<$b> as Idx>::CAP { if l < d { p = pset(p, 3, l, m.get(l)); } }
    assert!(m == build(d, p));
} } }
pub mod made { use super::*; obligations! {
    m2_u8 [6] { made2!(u8) } m2_u16 [10] { made2!(u16) } m2_u32 [18] { made2!(u32) } m2_u64 [34] { made2!(u64) } m2_u128 [66] { made2!(u128) }
    m3_u8 [6] { made3!(u8) } m3_u16 [10] { made3!(u16) } m3_u32 [14] { made3!(u32) } m3_u64 [24] { made3!(u64) } m3_u128 [44] { made3!(u128) }
} }
pub mod dynamic {
    use super::*;
    obligations! {
        y2_0_0 [8] { eq_pair::<Y2>(0, 0) } y2_0_1 [8] { eq_pair::<Y2>(0, 1) } y2_1_2 [8] { eq_pair::<Y2>(1, 2) } y2_3_3 [8] { eq_pair::<Y2>(3, 3) } y2_4_4 [8] { eq_pair::<Y2>(4, 4) } y2_5_5 [8] { eq_pair::<Y2>(5, 5) } y2_4_5 [8] { eq_pair::<Y2>(4, 5) }
        y3_0_0 [8] { eq_pair::<Y3>(0, 0) } y3_0_1 [8] { eq_pair::<Y3>(0, 1) } y3_1_2 [8] { eq_pair::<Y3>(1, 2) } y3_2_2 [8] { eq_pair::<Y3>(2, 2) } y3_3_3 [8] { eq_pair::<Y3>(3, 3) } y3_5_5 [8] { eq_pair::<Y3>(5, 5) } y3_2_3 [8] { eq_pair::<Y3>(2, 3) }
        s2_0 [12] { step::<Y2>(0, 1) } s2_1 [12] { step::<Y2>(1, 1) } s2_3 [12] { step::<Y2>(3, 2) } s2_4 [12] { step::<Y2>(4, 1) } s2_5 [12] { step::<Y2>(5, 2) } s2_8 [12] { step::<Y2>(8, 5) } s2_9 [12] { step::<Y2>(9, 1) }
        s3_0 [12] { step::<Y3>(0, 1) } s3_1 [12] { step::<Y3>(1, 1) } s3_2 [12] { step::<Y3>(2, 1) } s3_3 [12] { step::<Y3>(3, 1) } s3_5 [12] { step::<Y3>(5, 2) } s3_6 [12] { step::<Y3>(6, 1) } s3_8 [12] { step::<Y3>(8, 3) }
    }
}
