//! C14: bit ranges of integers, full domain
use crate::nd;
use morton_index::number::Bits;

macro_rules! get { ($t:ident) => { {
    const W: usize = <$t>::BITS as usize;
    let v = nd::$t();
    let (s, e) = (nd::below(W + 1), nd::below(W + 1));
    nd::assume(s <= e);
    let r = unsafe { v.get_bits(s..e) };
    // bit i of the result is bit s+i of the value inside the range, zero outside
    let i = nd::below(W);
    assert!((r >> i) & 1 == if s + i < e { (v >> (s + i)) & 1 } else { 0 }, "exactly the bits of the range");
    let u = unsafe { v.get_bits_as_usize(s..e) };
    let k = nd::below(64);
    if e - s <= 64 { assert!((u >> k) & 1 == if s + k < e { ((v >> (s + k)) & 1) as usize } else { 0 }, "as usize"); }
} } }
macro_rules! set { ($t:ident) => { {
    const W: usize = <$t>::BITS as usize;
    let v = nd::$t();
    let n = nd::$t();
    let (s, e) = (nd::below(W), nd::below(W + 1));
    nd::assume(s <= e);
    nd::assume(e - s == W || n >> (e - s) == 0); // the value fits the range
    let mut r = v;
    unsafe { r.set_bits(s..e, n) };
    let i = nd::below(W);
    assert!((r >> i) & 1 == if s <= i && i < e { (n >> (i - s)) & 1 } else { (v >> i) & 1 }, "exactly the bits of the range change");
    let m = nd::usize();
    nd::assume(e - s >= 64 || m >> (e - s) == 0);
    let mut r = v;
    unsafe { r.set_bits_from_usize(s..e, m) };
    assert!((r >> i) & 1 == if s <= i && i < e { if i - s < 64 { (m >> (i - s)) as $t & 1 } else { 0 } } else { (v >> i) & 1 }, "from usize");
} } }
pub mod get { use super::*; obligations! { u8 [2] { get!(u8) } u16 [2] { get!(u16) } u32 [2] { get!(u32) } u64 [2] { get!(u64) } u128 [2] { get!(u128) } usize [2] { get!(usize) } } }
pub mod set { use super::*; obligations! { u8 [2] { set!(u8) } u16 [2] { set!(u16) } u32 [2] { set!(u32) } u64 [2] { set!(u64) } u128 [2] { set!(u128) } usize [2] { set!(usize) } } }
pub mod size { use super::*; obligations! { all [2] { assert!(nd::u8().size() == 1 && nd::u16().size() == 2 && nd::u32().size() == 4 && nd::u64().size() == 8 && nd::u128().size() == 16 && nd::usize().size() == 8);
    assert!(<u8 as Bits>::BITS == 8 && <u16 as Bits>::BITS == 16 && <u32 as Bits>::BITS == 32 && <u64 as Bits>::BITS == 64 && <u128 as Bits>::BITS == 128 && <usize as Bits>::BITS == 64) } } }
