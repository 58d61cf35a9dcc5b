#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
#![allow(unused_imports, unused_variables, unused_parens, unused_unsafe, unused_mut, dead_code, non_camel_case_types, unused_assignments, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

/// assumed contracts of library functions (the standard library's documentation is the source)
pub mod vx {
use vstd::prelude::*;
verus! {
pub assume_specification[ u8::checked_shr ](x: u8, n: u32) -> (r: Option<u8>) ensures r == if n < 8 { Some(x >> n) } else { None::<u8> };
pub assume_specification[ u16::checked_shr ](x: u16, n: u32) -> (r: Option<u16>) ensures r == if n < 16 { Some(x >> n) } else { None::<u16> };
pub assume_specification[ u32::checked_shr ](x: u32, n: u32) -> (r: Option<u32>) ensures r == if n < 32 { Some(x >> n) } else { None::<u32> };
pub assume_specification[ u64::checked_shr ](x: u64, n: u32) -> (r: Option<u64>) ensures r == if n < 64 { Some(x >> n) } else { None::<u64> };
pub assume_specification[ u128::checked_shr ](x: u128, n: u32) -> (r: Option<u128>) ensures r == if n < 128 { Some(x >> n) } else { None::<u128> };
pub assume_specification[ usize::checked_shr ](x: usize, n: u32) -> (r: Option<usize>) ensures r == if n < 64 { Some(x >> n) } else { None::<usize> };
pub assume_specification[ usize::checked_shl ](x: usize, n: u32) -> (r: Option<usize>) ensures r == if n < 64 { Some(x << n) } else { None::<usize> };
/// `s.to_owned()` of a byte slice
#[verifier::external_body]
pub fn owned(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
pub assume_specification[ <core::cmp::Ordering as PartialEq>::eq ](a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool) ensures r == (*a == *b);
/// `bytemuck::bytes_of(&x)` on a little-endian target
pub trait Bytes: Sized { spec fn count() -> nat; spec fn ne_bytes(&self) -> Seq<u8>; }
impl Bytes for u8 { open spec fn count() -> nat { 1 } open spec fn ne_bytes(&self) -> Seq<u8> { seq![*self] } }
impl Bytes for u16 { open spec fn count() -> nat { 2 } open spec fn ne_bytes(&self) -> Seq<u8> { Seq::new(2, |k: int| (*self >> ((8 * k) as u16)) as u8) } }
impl Bytes for u32 { open spec fn count() -> nat { 4 } open spec fn ne_bytes(&self) -> Seq<u8> { Seq::new(4, |k: int| (*self >> ((8 * k) as u32)) as u8) } }
impl Bytes for u64 { open spec fn count() -> nat { 8 } open spec fn ne_bytes(&self) -> Seq<u8> { Seq::new(8, |k: int| (*self >> ((8 * k) as u64)) as u8) } }
impl Bytes for u128 { open spec fn count() -> nat { 16 } open spec fn ne_bytes(&self) -> Seq<u8> { Seq::new(16, |k: int| (*self >> ((8 * k) as u128)) as u8) } }
impl Bytes for usize { open spec fn count() -> nat { 8 } open spec fn ne_bytes(&self) -> Seq<u8> { Seq::new(8, |k: int| (*self >> ((8 * k) as usize)) as u8) } }
#[verifier::external_body]
pub fn bytes_of<T: Bytes>(x: &T) -> (r: &[u8]) ensures r@ == x.ne_bytes() { unimplemented!() }
/// `bytemuck::bytes_of_mut(x)` on a little-endian target: the bytes of `x` themselves
#[verifier::external_body]
pub fn bytes_of_mut<T: Bytes>(x: &mut T) -> (r: &mut [u8])
    ensures r@ == old(x).ne_bytes(), final(r)@.len() == r@.len() ==> final(x).ne_bytes() == final(r)@,
{ unimplemented!() }
/// `(s.as_ptr().add(i) as *const u16).read_unaligned()` on a little-endian target: in bounds only if two bytes are there
#[verifier::external_body]
pub fn u16_at(s: &[u8], i: usize) -> (r: u16)
    requires i + 1 < s@.len(),
    ensures r == (s@[i as int] as u16) | ((s@[i + 1] as u16) << 8),
{ unimplemented!() }
/// `panic!`: allowed only under the stated condition, and does not return
#[verifier::external_body]
pub fn refuse(Ghost(allowed): Ghost<bool>) requires allowed ensures false { unimplemented!() }
/// `x.iter().copied().skip(n).collect()`
#[verifier::external_body]
pub fn copied_skip(x: &Vec<u8>, n: usize) -> (r: Vec<u8>)
    ensures n <= x@.len() ==> r@ == x@.subrange(n as int, x@.len() as int), n > x@.len() ==> r@.len() == 0,
{ unimplemented!() }
/// `std::iter::repeat(z).take(n).chain(x.iter().copied()).collect()`
#[verifier::external_body]
pub fn repeat_chain(z: u8, n: usize, x: &Vec<u8>) -> (r: Vec<u8>)
    ensures r@ == Seq::new(n as nat, |i: int| z) + x@,
{ unimplemented!() }
/// `T::from_ne_bytes(v.try_into().unwrap())` on a little-endian target; panics for any other number of bytes
#[verifier::external_body]
pub fn from_ne_bytes<T: Bytes>(v: Vec<u8>) -> (r: T) requires v@.len() == T::count() ensures r.ne_bytes() == v@ { unimplemented!() }
/// `[x; N]`
#[verifier::external_body]
pub fn filled<const N: usize>(x: u8) -> (r: [u8; N]) ensures forall|k: int| 0 <= k < N ==> #[trigger] r@[k] == x { [x; N] }
/// `T::from_le_bytes(b)`
#[verifier::external_body]
pub fn from_le_bytes<T: Bytes, const N: usize>(b: [u8; N]) -> (r: T) requires N == T::count() ensures r.ne_bytes() == b@ { unimplemented!() }
/// `T::from_be_bytes(b)`
#[verifier::external_body]
pub fn from_be_bytes<T: Bytes, const N: usize>(b: [u8; N]) -> (r: T) requires N == T::count() ensures r.ne_bytes() == b@.reverse() { unimplemented!() }
/// `x[a..b].copy_from_slice(y)`
#[verifier::external_body]
pub fn copy_into<const N: usize>(x: &mut [u8; N], a: usize, b: usize, y: &[u8])
    requires a <= b <= N, y@.len() == b - a,
    ensures forall|k: int| 0 <= k < N ==> #[trigger] final(x)@[k] == if a <= k < b { y@[k - a] } else { old(x)@[k] },
{ unimplemented!() }
/// `s.iter().copied().rev().collect()`
#[verifier::external_body]
pub fn reversed_copy(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@.reverse() { unimplemented!() }
/// text: an empty string, and the string with a character or the `{}` of a value at its end
#[verifier::external_body]
pub fn empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn push<T: super::name::Shown>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.shown() { unimplemented!() }
/// `std::fmt::Formatter`: what was written to it (after an error, nothing is known)
#[verifier::external_body]
pub struct Sink { _p: () }
#[verifier::external_body]
pub struct SinkError { _p: () }
impl View for Sink { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn put(f: &mut Sink, s: String) -> (r: Result<(), SinkError>) ensures r is Ok ==> final(f)@ == old(f)@ + s@ { unimplemented!() }
/// the state of a `std::hash::Hasher`; the library's `Hash` of an integer or a byte vector feeds it a function of the value
#[verifier::external_body]
pub struct State { _p: () }
pub uninterp spec fn fed<T>(s: State, x: T) -> State;
#[verifier::external_body]
pub fn feed<T>(x: &T, s: &mut State) ensures *final(s) == fed(*old(s), *x) { unimplemented!() }
#[verifier::external_body]
pub fn feed_vec(x: &Vec<u8>, s: &mut State) ensures *final(s) == fed(*old(s), x@) { unimplemented!() }
/// `v == w` of byte vectors
#[verifier::external_body]
pub fn vec_eq(v: &Vec<u8>, w: &Vec<u8>) -> (r: bool) ensures r == (v@ == w@) { unimplemented!() }
}
}
