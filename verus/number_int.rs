pub mod int_«T» {
use super::*;
pub open spec fn tb(x: «T», i: int) -> bool { 0 <= i < «N» && (x >> (i as «T»)) & 1 == 1 }
proof fn and_bv(x: «T», y: «T», i: «T») by(bit_vector) requires i < «N» ensures ((x & y) >> i) & 1 == ((x >> i) & 1) & ((y >> i) & 1), (((x >> i) & 1) & ((y >> i) & 1) == 1) == ((x >> i) & 1 == 1 && (y >> i) & 1 == 1)
{}
proof fn or_bv(x: «T», y: «T», i: «T») by(bit_vector) requires i < «N» ensures (((x | y) >> i) & 1 == 1) == ((x >> i) & 1 == 1 || (y >> i) & 1 == 1)
{}
proof fn xor_bv(x: «T», y: «T», i: «T») by(bit_vector) requires i < «N» ensures (((x ^ y) >> i) & 1 == 1) == (((x >> i) & 1 == 1) != ((y >> i) & 1 == 1))
{}
proof fn not_bv(x: «T», i: «T») by(bit_vector) requires i < «N» ensures ((!x >> i) & 1 == 1) == !((x >> i) & 1 == 1)
{}
proof fn shr_bv(v: «T», n: «T», j: «T») by(bit_vector)
    requires n < «N», j < «N»
    ensures ((v >> n) >> j) & 1 == (if j + n < «N» { (v >> ((j + n) as «T»)) & 1 } else { 0 })
{}
proof fn shl_bv(v: «T», n: «T», j: «T») by(bit_vector)
    requires n < «N», j < «N»
    ensures ((v << n) >> j) & 1 == (if j >= n { (v >> ((j - n) as «T»)) & 1 } else { 0 })
{}
proof fn const_bv(i: «T») by(bit_vector) requires i < «N» ensures (0«T» >> i) & 1 == 0, («MAX» >> i) & 1 == 1
{}
proof fn one_bv(x: «T», i: «T») by(bit_vector) ensures (x >> i) & 1 == 0 || (x >> i) & 1 == 1
{}
pub broadcast proof fn b_and(x: «T», y: «T», i: int) ensures #[trigger] tb(x & y, i) == (tb(x, i) && tb(y, i)) { if 0 <= i < «N» { and_bv(x, y, i as «T») } }
pub broadcast proof fn b_or(x: «T», y: «T», i: int) ensures #[trigger] tb(x | y, i) == (tb(x, i) || tb(y, i)) { if 0 <= i < «N» { or_bv(x, y, i as «T») } }
pub broadcast proof fn b_xor(x: «T», y: «T», i: int) ensures #[trigger] tb(x ^ y, i) == (tb(x, i) != tb(y, i)) { if 0 <= i < «N» { xor_bv(x, y, i as «T») } }
pub broadcast proof fn b_not(x: «T», i: int) ensures #[trigger] tb(!x, i) == (0 <= i < «N» && !tb(x, i)) { if 0 <= i < «N» { not_bv(x, i as «T») } }
pub broadcast proof fn b_shr(x: «T», n: «T», i: int) requires n < «N» ensures #[trigger] tb(x >> n, i) == (i >= 0 && tb(x, i + n)) { if 0 <= i < «N» { shr_bv(x, n, i as «T») } }
pub broadcast proof fn b_shl(x: «T», n: «T», i: int) requires n < «N» ensures #[trigger] tb(x << n, i) == (i < «N» && tb(x, i - n)) { if 0 <= i < «N» { shl_bv(x, n, i as «T») } }
pub broadcast proof fn b_zero(i: int) ensures !#[trigger] tb(0«T», i) { if 0 <= i < «N» { const_bv(i as «T») } }
pub broadcast proof fn b_max(i: int) ensures #[trigger] tb(«MAX», i) == (0 <= i < «N») { if 0 <= i < «N» { const_bv(i as «T») } }
pub broadcast group bits { b_and, b_or, b_xor, b_not, b_shr, b_shl, b_zero, b_max }
pub broadcast proof fn b_link(x: «T», i: int) ensures #[trigger] tb(x, i) == x.bit(i) {}
pub proof fn zero_bits() ensures forall|i: int| !#[trigger] 0«T».bit(i) { broadcast use bits; }
proof fn ext_bv(x: «T», y: «T», i: «T») by(bit_vector)
    requires x != y
    ensures !(forall|i: «T»| #![trigger (x >> i)] i < «N» ==> ((x >> i) & 1 == (y >> i) & 1))
{}
/// two values with the same bits are the same value
pub proof fn ext(x: «T», y: «T»)
    requires forall|i: int| 0 <= i < «N» ==> x.bit(i) == y.bit(i),
    ensures x == y,
{
    if x != y {
        ext_bv(x, y, 0);
        let i = choose|i: «T»| #![trigger (x >> i)] i < «N» && !((x >> i) & 1 == (y >> i) & 1);
        assert(x.bit(i as int) == y.bit(i as int));
        one_bv(x, i); one_bv(y, i);
    }
}
proof fn order_bv(x: «T», y: «T», h: «T») by(bit_vector)
    requires h < «N», (x >> h) & 1 != (y >> h) & 1, (x >> h) >> 1 == (y >> h) >> 1
    ensures (x < y) == ((y >> h) & 1 == 1)
{}
/// the highest bit in which two values differ decides their order
pub proof fn order(x: «T», y: «T», h: int)
    requires 0 <= h < «N», tb(x, h) != tb(y, h), forall|i: int| h < i ==> #[trigger] tb(x, i) == tb(y, i),
    ensures (x < y) == tb(y, h),
{
    broadcast use b_shr;
    let (a, b) = ((x >> (h as «T»)) >> 1, (y >> (h as «T»)) >> 1);
    assert forall|i: int| 0 <= i < «N» implies #[trigger] a.bit(i) == b.bit(i) by { assert(tb(a, i) == tb(x, i + 1 + h)); assert(tb(b, i) == tb(y, i + 1 + h)); }
    ext(a, b);
    one_bv(x, h as «T»); one_bv(y, h as «T»);
    order_bv(x, y, h as «T»);
}
proof fn to_u8_bv(x: «T», i: u8) by(bit_vector) requires i < 8 ensures ((x as u8) >> i) & 1 == 1 <==> (x >> (i as «T»)) & 1 == 1
{}
proof fn from_u8_bv(x: u8, i: «T») by(bit_vector) requires i < «N» ensures ((x as «T») >> i) & 1 == 1 <==> i < 8 && (x >> (i as u8)) & 1 == 1
{}
proof fn to_usize_bv(x: «T», i: usize) by(bit_vector) requires i < 64 ensures ((x as usize) >> i) & 1 == 1 <==> i < «N» && (x >> (i as «T»)) & 1 == 1
{}
proof fn from_usize_bv(x: usize, i: «T») by(bit_vector) requires i < «N» ensures ((x as «T») >> i) & 1 == 1 <==> i < 64 && (x >> (i as usize)) & 1 == 1
{}
pub proof fn to_u8_all() ensures forall|x: «T», i: int| #[trigger] int_u8::tb(x as u8, i) == (0 <= i < 8 && tb(x, i)) { assert forall|x: «T», i: int| #[trigger] int_u8::tb(x as u8, i) == (0 <= i < 8 && tb(x, i)) by { to_u8(x) } }
pub proof fn from_u8_all() ensures forall|x: u8, i: int| #[trigger] tb(x as «T», i) == (0 <= i < 8 && int_u8::tb(x, i)) { assert forall|x: u8, i: int| #[trigger] tb(x as «T», i) == (0 <= i < 8 && int_u8::tb(x, i)) by { from_u8(x) } }
pub proof fn to_u8(x: «T») ensures forall|i: int| #[trigger] int_u8::tb(x as u8, i) == (0 <= i < 8 && tb(x, i))
{ assert forall|i: int| #[trigger] int_u8::tb(x as u8, i) == (0 <= i < 8 && tb(x, i)) by { if 0 <= i < 8 { to_u8_bv(x, i as u8) } } }
pub proof fn from_u8(x: u8) ensures forall|i: int| #[trigger] tb(x as «T», i) == (0 <= i < 8 && int_u8::tb(x, i))
{ assert forall|i: int| #[trigger] tb(x as «T», i) == (0 <= i < 8 && int_u8::tb(x, i)) by { if 0 <= i < «N» { from_u8_bv(x, i as «T») } } }
pub proof fn to_usize() ensures forall|x: «T», i: int| #[trigger] int_usize::tb(x as usize, i) == (0 <= i < 64 && x.bit(i))
{ assert forall|x: «T», i: int| #[trigger] int_usize::tb(x as usize, i) == (0 <= i < 64 && x.bit(i)) by { if 0 <= i < 64 { to_usize_bv(x, i as usize) } } }
pub proof fn from_usize(x: usize) ensures forall|i: int| #[trigger] tb(x as «T», i) == (0 <= i < «N» && int_usize::tb(x, i))
{ assert forall|i: int| #[trigger] tb(x as «T», i) == (0 <= i < «N» && int_usize::tb(x, i)) by { if 0 <= i < «N» { from_usize_bv(x, i as «T») } } }
/// the bytes of a value and its bits
pub proof fn byte_bits(v: «T»)
    ensures 8 * v.ne_bytes().len() == «N», forall|i: int| #[trigger] int_vec::vb(v.ne_bytes(), i) == tb(v, i),
{
    broadcast use bits;
    to_u8_all();
    assert forall|i: int| #[trigger] int_vec::vb(v.ne_bytes(), i) == tb(v, i) by {
        if 0 <= i < «N» && «N» > 8 { assert(v.ne_bytes()[i / 8] == (v >> ((8 * (i / 8)) as «T»)) as u8); }
    }
}
pub broadcast proof fn byte_bits_all(v: «T»)
    ensures 8 * (#[trigger] v.ne_bytes()).len() == «N», forall|i: int| #[trigger] int_vec::vb(v.ne_bytes(), i) == tb(v, i),
{ byte_bits(v); }
/// a value's bytes give the value back, and bytes built into a value are its bytes
pub proof fn c20_there_and_back(x: «T», r: «T») requires forall|i: int| #[trigger] r.bit(i) == int_vec::vb(ordered(x.ne_bytes(), «N»int / 8, Endianness::LittleEndian), i) ensures r == x {
    byte_bits(x);
    assert(ordered(x.ne_bytes(), «N»int / 8, Endianness::LittleEndian) =~= x.ne_bytes());
    assert forall|i: int| 0 <= i < «N» implies r.bit(i) == x.bit(i) by { assert(int_vec::vb(x.ne_bytes(), i) == tb(x, i)); }
    ext(r, x);
}
pub proof fn c20_bytes_kept(b: Seq<u8>, r: «T») requires b.len() == «N»int / 8, forall|i: int| #[trigger] r.bit(i) == int_vec::vb(ordered(b, «N»int / 8, Endianness::LittleEndian), i) ensures r.ne_bytes() == b {
    byte_bits(r);
    assert(ordered(b, «N»int / 8, Endianness::LittleEndian) =~= b);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] r.ne_bytes()[k] == b[k] by {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] r.ne_bytes()[k].bit(j) == b[k].bit(j) by { assert(int_vec::vb(r.ne_bytes(), 8 * k + j) == tb(r, 8 * k + j)); assert(r.bit(8 * k + j) == int_vec::vb(b, 8 * k + j)); }
        int_u8::ext(r.ne_bytes()[k], b[k]);
    }
    assert(r.ne_bytes() =~= b);
}
pub proof fn bits_const() ensures <«T» as Bits>::BITS == «N» {} /*props C14*/
impl Bits for «T» {
    open spec fn bit(&self, i: int) -> bool { tb(*self, i) }
    open spec fn nbits(&self) -> int { «N» }
    open spec fn sized(n: int) -> bool { n == «N» }
    open spec fn result_of(&self, n: int) -> bool { true }
    open spec fn source(&self, n: int) -> bool { n <= «N» && forall|i: int| n <= i ==> !#[trigger] self.bit(i) }
    open spec fn converts(n: int, w: int) -> bool { true }
    open spec fn bytes_taken(n: int) -> int { «N»int / 8 }
    open spec fn source_usize(v: usize, n: int) -> bool { n <= 64 && forall|i: int| n <= i ==> !#[trigger] int_usize::tb(v, i) }
    proof fn lemma_bit(&self, i: int) {}
    proof fn lemma_result(&self, n: int) {}
    proof fn lemma_usize(v: usize, n: int) {}
    proof fn lemma_source(&self, n: int) { assert forall|i: int| n <= i implies !#[trigger] (*self).bit(i) by { assert(!self.bit(i)); } }
    //@const number.rs «T»|Bits|BITS ## std :: mem :: size_of :: < usize > ()~>8usize => const BITS: usize = $;
    //@extract number.rs «T»|Bits|get_bits
    //@ret r
    //@props C14
    //@at start
    broadcast use bits;
    //@end
    //@extract number.rs «T»|Bits|set_bits
    //@props C14
    //@at start
    broadcast use bits;
    proof { assert forall|i: int| bit_range.end - bit_range.start <= i implies !#[trigger] tb(new_value, i) by { assert(!new_value.bit(i)); } }
    //@end
    //@extract number.rs «T»|Bits|get_bits_as_usize
    //@ret r
    //@props C14
    //@at start
    proof { to_usize(); }
    //@end
    //@extract number.rs «T»|Bits|set_bits_from_usize
    //@props C14
    //@at start
    proof { from_usize(new_value); }
    //@end
    //@extract number.rs «T»|Bits|as_u8
    //@ret r
    //@props C20
    //@at start
    proof { to_u8(self); }
    //@end
    //@extract number.rs «T»|Bits|from_u8
    //@ret r
    //@props C20
    //@at start
    proof { from_u8(val); }
    //@end
    //@extract number.rs «T»|Bits|from_u16
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_u16_«T»::cast;
    //@end
    //@extract number.rs «T»|Bits|from_u32
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_u32_«T»::cast;
    //@end
    //@extract number.rs «T»|Bits|from_u64
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_u64_«T»::cast;
    //@end
    //@extract number.rs «T»|Bits|as_u16
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_«T»_u16::cast;
    //@end
    //@extract number.rs «T»|Bits|as_u32
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_«T»_u32::cast;
    //@end
    //@extract number.rs «T»|Bits|as_u64
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_«T»_u64::cast;
    //@end
    //@extract number.rs «T»|Bits|as_u128
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_«T»_u128::cast;
    //@end
    //@extract number.rs «T»|Bits|as_usize
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_«T»_usize::cast;
    //@end
    //@extract number.rs «T»|Bits|from_u128
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_u128_«T»::cast;
    //@end
    //@extract number.rs «T»|Bits|from_usize
    //@ret r
    //@props C20
    //@at start
    broadcast use super::cast_usize_«T»::cast;
    //@end
    //@extract number.rs «T»|Bits|from_u8_slice
    //@ret r
    //@props C20
    «FROMBYTES»
    //@end
    //@extract number.rs «T»|Bits|size
    //@ret r
    //@end
    //@extract number.rs «T»|Bits|as_u8_slice
    //@ret r
    //@props C20
    //@at start
    proof { byte_bits(*self); }
    //@end
    //@extract number.rs «T»|Bits|as_u8_slice_mut
    //@ret r
    //@props C20
    //@at start
    broadcast use byte_bits_all;
    //@end
}
}
