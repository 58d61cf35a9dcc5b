//! The library contracts that the Verus layer assumes (`verus/head.rs`, `name.rs`, `order.rs`), stated on the real library
//! functions as this toolchain compiles them. `exact`: all inputs, complete. `sized`: all contents, the listed lengths (bounded).
//! They concern the library, not the code under verification: a failure is reported in the evidence and never as a violation.
use crate::nd;
macro_rules! shr { ($($t:ident)*) => { obligations! { $( $t [2] {
    let (v, n) = (nd::$t(), nd::u32());
    match v.checked_shr(n) { Some(r) => assert!(n < $t::BITS && r == v >> n), None => assert!(n >= $t::BITS) }
} )* } } }
pub mod checked_shr { use super::*; shr! { u8 u16 u32 u64 u128 usize } }
pub mod checked_shl { use super::*; obligations! { usize [2] { let (v, n) = (nd::usize(), nd::u32()); match v.checked_shl(n) { Some(r) => assert!(n < 64 && r == v << n), None => assert!(n >= 64) } } } }
macro_rules! bytes { ($($t:ident)*) => { obligations! { $( $t [19] {
    const W: usize = $t::BITS as usize / 8;
    let v = nd::$t();
    let k = nd::below(W);
    let x = (v >> (8 * k)) as u8; // byte k of v
    let b = bytemuck::bytes_of(&v);
    assert!(b.len() == W && b[k] == x, "bytes_of");
    let mut a = [0u8; W];
    let mut i = 0; while i < W { a[i] = nd::u8(); i += 1 }
    assert!(($t::from_le_bytes(a) >> (8 * k)) as u8 == a[k], "from_le_bytes");
    assert!(($t::from_be_bytes(a) >> (8 * k)) as u8 == a[W - 1 - k], "from_be_bytes");
    assert!(($t::from_ne_bytes(a) >> (8 * k)) as u8 == a[k], "from_ne_bytes");
    let mut w = v;
    { let m = bytemuck::bytes_of_mut(&mut w); assert!(m.len() == W && m[k] == x, "bytes_of_mut"); let mut i = 0; while i < W { m[i] = a[i]; i += 1 } }
    assert!((w >> (8 * k)) as u8 == a[k], "written through bytes_of_mut");
} )* } } }
pub mod bytes { use super::*; bytes! { u8 u16 u32 u64 u128 usize } }
/// `T::from_ne_bytes(v.try_into().unwrap())`
macro_rules! whole { ($($t:ident)*) => { obligations! { $( $t [19] {
    const W: usize = $t::BITS as usize / 8;
    let v = nd::$t();
    let mut x = Vec::with_capacity(W);
    let mut i = 0; while i < W { x.push((v >> (8 * i)) as u8); i += 1 }
    assert!($t::from_ne_bytes(x.try_into().unwrap()) == v);
} )* } } }
pub mod whole { use super::*; whole! { u8 u16 u32 u64 u128 usize } }
fn copy<const N: usize>() {
    let (mut x, mut y) = ([0u8; N], [0u8; N]);
    let mut i = 0; while i < N { x[i] = nd::u8(); y[i] = nd::u8(); i += 1 }
    let (a, b, k) = (nd::below(N + 1), nd::below(N + 1), nd::below(N));
    nd::assume(a <= b);
    let old = x;
    x[a..b].copy_from_slice(&y[..b - a]);
    assert!(x[k] == if a <= k && k < b { y[k - a] } else { old[k] });
    let z = nd::u8();
    assert!([z; N][k] == z);
}
pub mod copy_into { use super::*; obligations! { n2 [19] { copy::<2>() } n4 [19] { copy::<4>() } n8 [19] { copy::<8>() } n16 [19] { copy::<16>() } } }
pub mod text { use super::*; obligations! {
    from_digit [2] { let n = nd::u32(); match core::char::from_digit(n, 10) { Some(c) => assert!(n < 10 && c as u32 == '0' as u32 + n), None => assert!(n >= 10) } }
} }
pub mod ordering { use super::*; use std::cmp::Ordering; use morton_index::dimensions::{Octant, Quadrant}; use std::convert::TryFrom;
fn o(n: usize) -> Ordering { match n { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } }
obligations! {
    equality [2] { let (a, b) = (nd::below(3), nd::below(3)); assert!((o(a) == o(b)) == (a == b)); }
    quadrants [2] { let (a, b) = (nd::below(5), nd::below(5)); let q = |n: usize| if n == 0 { None } else { Some(Quadrant::try_from(n - 1).unwrap()) }; assert!(q(a).cmp(&q(b)) == a.cmp(&b)); }
    octants [2] { let (a, b) = (nd::below(9), nd::below(9)); let q = |n: usize| if n == 0 { None } else { Some(Octant::try_from(n - 1).unwrap()) }; assert!(q(a).cmp(&q(b)) == a.cmp(&b)); }
} }
fn vec_of(n: usize) -> Vec<u8> { let mut r = Vec::with_capacity(n); for _ in 0..n { r.push(nd::u8()) } r }
fn shapes(n: usize) {
    let x = vec_of(n);
    assert!(x[..].to_owned() == x);
    let r: Vec<u8> = x.iter().copied().rev().collect();
    assert!(r.len() == n);
    for i in 0..n { assert!(r[i] == x[n - 1 - i]) }
    for s in 0..n + 2 {
        let y: Vec<u8> = x.iter().copied().skip(s).collect();
        if s > n { assert!(y.is_empty()) } else { assert!(y == x[s..]) }
    }
    let z = nd::u8();
    for m in 0..3 {
        let y: Vec<u8> = std::iter::repeat(z).take(m).chain(x.iter().copied()).collect();
        assert!(y.len() == m + n && y[m..] == x[..]);
        for i in 0..m { assert!(y[i] == z) }
    }
}
/// slices compare element by element, the shorter one first
fn compare(n: usize, m: usize) {
    let (a, b) = (vec_of(n), vec_of(m));
    let (a, b): (&[u8], &[u8]) = (&a, &b);
    let mut o = n.cmp(&m);
    let mut i = n.min(m);
    while i > 0 { i -= 1; if a[i] != b[i] { o = a[i].cmp(&b[i]) } }
    assert!(a.cmp(b) == o && a.partial_cmp(b) == Some(o) && (a == b) == (o == std::cmp::Ordering::Equal));
}
/// vectors are equal when they are equal element by element
fn same(n: usize, m: usize) {
    let (a, b) = (vec_of(n), vec_of(m));
    let mut e = n == m;
    if e { for i in 0..n { e = e && a[i] == b[i] } }
    assert!((a == b) == e);
}
pub mod sized { use super::*; obligations! {
    vectors_0 [8] { shapes(0) } vectors_1 [8] { shapes(1) } vectors_2 [8] { shapes(2) } vectors_3 [8] { shapes(3) }
    slices [8] { compare(0, 0); compare(0, 2); compare(1, 1); compare(2, 1); compare(2, 2); compare(2, 3); compare(3, 3) }
    equal [8] { same(0, 0); same(0, 2); same(1, 1); same(2, 2); same(3, 2); same(3, 3) }
    u16_at [12] { let x = vec_of(9); let i = nd::below(8); assert!(unsafe { (x.as_ptr().add(i) as *const u16).read_unaligned() } == x[i] as u16 | ((x[i + 1] as u16) << 8)) }
} }
