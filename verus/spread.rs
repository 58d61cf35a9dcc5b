pub mod spread {
use vstd::prelude::*;
use super::number::*;
verus! {
broadcast use {int_u8::b_link, int_u16::b_link, int_u32::b_link, int_u64::b_link};
//@straight C16 number.rs fn|add_zero_before_every_bit_u8 => proof fn before_u8_bv(val: u8, i: u8) by(bit_vector) requires i < 8 ensures ($ >> i) & 1 == (if i % 2 == 0 { (val >> (i / 2)) & 1 } else { 0 })
{}
//@straight C16 number.rs fn|add_zero_before_every_bit_u16 => proof fn before_u16_bv(val: u16, i: u16) by(bit_vector) requires i < 16 ensures ($ >> i) & 1 == (if i % 2 == 0 { (val >> (i / 2)) & 1 } else { 0 })
{}
//@straight C16 number.rs fn|add_two_zeroes_before_every_bit_u8 => proof fn two_u8_bv(val: u8, i: u32) by(bit_vector) requires i < 32 ensures (($ >> i) & 1 == 1) == (i < 24 && i % 3 == 0 && (val >> ((i / 3) as u8)) & 1 == 1)
{}
//@straight C16 number.rs fn|add_two_zeroes_before_every_bit_u32 => proof fn two_u32_bv(val: u32, i: u64) by(bit_vector) requires i < 64 ensures (($ >> i) & 1 == 1) == (i < 63 && i % 3 == 0 && (val >> ((i / 3) as u32)) & 1 == 1)
{}
//@extract number.rs fn|add_zero_before_every_bit_u8
//@attr pub
//@ret r
//@props C16
//@at spec
    ensures forall|i: int| #[trigger] int_u8::tb(r, i) == (0 <= i < 8 && i % 2 == 0 && int_u8::tb(val, i / 2)),
//@at end
    proof { assert forall|i: int| #[trigger] int_u8::tb(r, i) == (0 <= i < 8 && i % 2 == 0 && int_u8::tb(val, i / 2)) by { if 0 <= i < 8 { before_u8_bv(val, i as u8); } } }
//@end
//@extract number.rs fn|add_zero_behind_every_bit_u8
//@attr pub
//@ret r
//@props C16
//@at spec
    ensures forall|i: int| #[trigger] int_u8::tb(r, i) == (0 <= i < 8 && i % 2 == 1 && int_u8::tb(val, i / 2)),
//@at start
    broadcast use int_u8::b_shl;
//@end
//@extract number.rs fn|add_zero_before_every_bit_u16
//@attr pub
//@ret r
//@props C16
//@at spec
    ensures forall|i: int| #[trigger] int_u16::tb(r, i) == (0 <= i < 16 && i % 2 == 0 && int_u16::tb(val, i / 2)),
//@at end
    proof { assert forall|i: int| #[trigger] int_u16::tb(r, i) == (0 <= i < 16 && i % 2 == 0 && int_u16::tb(val, i / 2)) by { if 0 <= i < 16 { before_u16_bv(val, i as u16); } } }
//@end
//@extract number.rs fn|add_two_zeroes_before_every_bit_u8
//@attr pub
//@ret r
//@props C16
//@at spec
    ensures forall|i: int| #[trigger] int_u32::tb(r, i) == (0 <= i < 24 && i % 3 == 0 && int_u8::tb(val, i / 3)),
//@at start
    let ghost arg = val;
//@at end
    proof { assert forall|i: int| #[trigger] int_u32::tb(r, i) == (0 <= i < 24 && i % 3 == 0 && int_u8::tb(arg, i / 3)) by { if 0 <= i < 32 { two_u8_bv(arg, i as u32); } } }
//@end
//@extract number.rs fn|add_two_zeroes_before_every_bit_u32
//@attr pub
//@ret r
//@props C16
//@at spec
    ensures forall|i: int| #[trigger] int_u64::tb(r, i) == (0 <= i < 63 && i % 3 == 0 && int_u32::tb(val, i / 3)),
//@at start
    let ghost arg = val;
//@at end
    proof { assert forall|i: int| #[trigger] int_u64::tb(r, i) == (0 <= i < 63 && i % 3 == 0 && int_u32::tb(arg, i / 3)) by { if 0 <= i < 64 { two_u32_bv(arg, i as u64); } } }
//@end
}
}
