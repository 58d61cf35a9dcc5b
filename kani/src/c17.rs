//! C17: alignment. Full domain for u8 and u16; the wider types (same text) are proved by Verus, here small operands only (bounded).
use crate::nd;
use morton_index::align::Alignable;
macro_rules! al { ($t:ident, $v:expr, $a:expr) => { {
    let (v, a): ($t, $t) = ($v, $a);
    if a == 0 { assert!(v.align_to(a) == v) } else {
        let m = v % a;
        nd::assume(m == 0 || v <= $t::MAX - (a - m)); // the least multiple is representable
        let r = v.align_to(a);
        assert!(r >= v && r - v < a && r % a == 0, "least multiple not below the value");
    }
} } }
/// near the top of the type: value and alignment differ from MAX in the low byte, so the division stays cheap
macro_rules! top { ($t:ident) => { {
    let v = $t::MAX - nd::u8() as $t;
    let sh = nd::below($t::BITS as usize);
    al!($t, v, 1 << sh);
} } }
pub mod align { use super::*; obligations! {
    u8 [2] { al!(u8, nd::u8(), nd::u8()) }
    u16 [2] { al!(u16, nd::u16(), nd::u16()) }
    u32_low [2] { al!(u32, nd::u8() as u32, nd::u8() as u32) } u64_low [2] { al!(u64, nd::u8() as u64, nd::u8() as u64) } usize_low [2] { al!(usize, nd::u8() as usize, nd::u8() as usize) }
    u32_top [2] { top!(u32) } u64_top [2] { top!(u64) } usize_top [2] { top!(usize) }
    zero [2] { al!(u32, nd::u32(), 0); al!(u64, nd::u64(), 0); al!(u128, nd::u128(), 0); al!(usize, nd::usize(), 0) }
} }
