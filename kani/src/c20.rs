//! C20: integer and byte conversions
use crate::nd;
use morton_index::number::*;
const NB: usize = 20;
fn any_bytes() -> ([u8; NB], usize) { let v = nd::u128(); let w = nd::u32(); let mut b = [0u8; NB]; for i in 0..16 { b[i] = (v >> (8 * i)) as u8; } for i in 0..4 { b[16 + i] = (w >> (8 * i)) as u8; } (b, nd::below(NB + 1)) }
/// leading bytes in the requested endianness, missing bytes zero, excess ignored
macro_rules! from { ($t:ident) => { {
    let (b, n) = any_bytes();
    const W: usize = <$t>::BITS as usize / 8;
    let le = unsafe { <$t as Bits>::from_u8_slice(&b[..n], Endianness::LittleEndian) };
    let be = unsafe { <$t as Bits>::from_u8_slice(&b[..n], Endianness::BigEndian) };
    let i = nd::below(W);
    let x = if i < n { b[i] } else { 0 };
    assert!((le >> (8 * i)) as u8 == x, "little endian");
    assert!((be >> (8 * (W - 1 - i))) as u8 == x, "big endian");
    // as bytes: native bytes, inverse of from_u8_slice
    let v = nd::$t();
    let s = unsafe { v.as_u8_slice() };
    assert!(s.len() == W && s[i] == (v >> (8 * i)) as u8, "native bytes");
    let back = unsafe { <$t as Bits>::from_u8_slice(s, Endianness::LittleEndian) };
    assert!(back == v, "inverse");
    let mut m = v;
    let y = nd::u8();
    unsafe { m.as_u8_slice_mut()[i] = y };
    let j = nd::below(W);
    assert!((m >> (8 * j)) as u8 == if j == i { y } else { (v >> (8 * j)) as u8 }, "writable bytes");
} } }
pub mod bytes { use super::*; obligations! { u8 [23] { from!(u8) } u16 [23] { from!(u16) } u32 [23] { from!(u32) } u64 [23] { from!(u64) } u128 [23] { from!(u128) } usize [23] { from!(usize) } } }
/// numeric conversions keep the low bits
macro_rules! num { ($t:ident) => { {
    let v = nd::$t();
    unsafe {
        assert!(v.as_u8() == v as u8 && v.as_u16() == v as u16 && v.as_u32() == v as u32 && v.as_u64() == v as u64 && v.as_u128() == v as u128 && v.as_usize() == v as usize);
        let w = nd::u128();
        assert!(<$t as Bits>::from_u8(w as u8) == w as u8 as $t && <$t as Bits>::from_u16(w as u16) == w as u16 as $t && <$t as Bits>::from_u32(w as u32) == w as u32 as $t);
        assert!(<$t as Bits>::from_u64(w as u64) == w as u64 as $t && <$t as Bits>::from_u128(w) == w as $t && <$t as Bits>::from_usize(w as usize) == w as usize as $t);
    }
} } }
pub mod numbers { use super::*; obligations! { u8 [2] { num!(u8) } u16 [2] { num!(u16) } u32 [2] { num!(u32) } u64 [2] { num!(u64) } u128 [2] { num!(u128) } usize [2] { num!(usize) } } }
/// byte vectors
macro_rules! vecs { ($t:ident, $from:ident, $as:ident) => { {
    let v = nd::$t();
    const W: usize = <$t>::BITS as usize / 8;
    let mut x = unsafe { <Vec<u8> as Bits>::$from(v) };
    assert!(x.len() == W && x.size() == W);
    for i in 0..W { assert!(x[i] == (v >> (8 * i)) as u8); }
    unsafe { assert!(x.as_u8_slice().len() == W && x.as_u8_slice()[0] == v as u8 && x.as_u8_slice_mut().len() == W); }
    assert!(unsafe { x.$as() } == v);
} } }
fn vec_bytes(n: usize) {
    let (b, _) = any_bytes();
    let l = unsafe { <Vec<u8> as Bits>::from_u8_slice(&b[..n], Endianness::LittleEndian) };
    let g = unsafe { <Vec<u8> as Bits>::from_u8_slice(&b[..n], Endianness::BigEndian) };
    assert!(l.len() == n && g.len() == n);
    for i in 0..n { assert!(l[i] == b[i] && g[n - 1 - i] == b[i]); }
}
pub mod vectors { use super::*; obligations! {
    u8 [18] { vecs!(u8, from_u8, as_u8) } u16 [18] { vecs!(u16, from_u16, as_u16) } u32 [18] { vecs!(u32, from_u32, as_u32) } u64 [18] { vecs!(u64, from_u64, as_u64) } u128 [18] { vecs!(u128, from_u128, as_u128) } usize [18] { vecs!(usize, from_usize, as_usize) }
    slices [23] { vec_bytes(0); vec_bytes(1); vec_bytes(2); vec_bytes(3); vec_bytes(7) }
} }
