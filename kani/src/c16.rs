//! C16: bit spreading, full domain
use crate::nd;
use morton_index::number::*;
macro_rules! spread { ($t:ident, $f:ident, $n:literal, $k:literal, $o:literal) => { {
    let v = nd::$t();
    let r = $f(v);
    let i = nd::below(std::mem::size_of_val(&r) * 8);
    let src = (i.wrapping_sub($o)) / $k;
    assert!((r >> i) & 1 == if i >= $o && (i - $o) % $k == 0 && src < $n { ((v >> src) & 1) as _ } else { 0 }, "bit of an arbitrary position");
} } }
pub mod spread { use super::*; obligations! {
    behind_u8 [2] { spread!(u8, add_zero_behind_every_bit_u8, 4, 2, 1) }
    before_u8 [2] { spread!(u8, add_zero_before_every_bit_u8, 4, 2, 0) }
    before_u16 [2] { spread!(u16, add_zero_before_every_bit_u16, 8, 2, 0) }
    two_u8 [2] { spread!(u8, add_two_zeroes_before_every_bit_u8, 8, 3, 0) }
    two_u32 [2] { spread!(u32, add_two_zeroes_before_every_bit_u32, 21, 3, 0) }
} }
