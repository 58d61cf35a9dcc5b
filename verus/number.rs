pub mod number {
use vstd::prelude::*;
use core::ops::Range;
use super::vx;
use super::vx::Bytes;
verus! {
/// bit numbers stay below this (a byte vector of 2^61 bytes or more is not considered)
pub open spec fn max_bit() -> int { 0xffff_ffff_ffff_fff0 }
//@struct number.rs Endianness
/// byte k of w bytes given in an endianness, missing ones zero
pub open spec fn byte_at(b: Seq<u8>, k: int) -> u8 { if 0 <= k < b.len() { b[k] } else { 0 } }
pub open spec fn ordered(b: Seq<u8>, w: int, e: Endianness) -> Seq<u8> { Seq::new(w as nat, |k: int| byte_at(b, if e is LittleEndian { k } else { w - 1 - k })) }
/// The bit string view that all contracts are stated over.
pub trait Bits: Sized {
    const BITS: usize;
    /// bit i of the value (false outside)
    spec fn bit(&self, i: int) -> bool;
    spec fn nbits(&self) -> int;
    /// values of this type can have n bits
    spec fn sized(n: int) -> bool;
    /// the value has the size of a result of n bits
    spec fn result_of(&self, n: int) -> bool;
    /// the value can be written into a range of n bits
    spec fn source(&self, n: int) -> bool;
    spec fn source_usize(v: usize, n: int) -> bool;
    /// a value of n bits converts to an integer of w bits
    spec fn converts(n: int, w: int) -> bool;
    /// how many of n given bytes (and zero bytes) a value is built from
    spec fn bytes_taken(n: int) -> int;
    proof fn lemma_bit(&self, i: int) ensures self.bit(i) ==> 0 <= i < self.nbits(), self.nbits() >= 0;
    proof fn lemma_result(&self, n: int) requires self.result_of(n), n >= 1 ensures self.nbits() >= 8;
    proof fn lemma_usize(v: usize, n: int) requires 0 <= n <= 64, forall|i: int| n <= i ==> !#[trigger] int_usize::tb(v, i) ensures Self::source_usize(v, n);
    proof fn lemma_source(&self, n: int) requires 0 <= n <= self.nbits(), 8 <= self.nbits(), forall|i: int| n <= i ==> !#[trigger] self.bit(i) ensures self.source(n);

    unsafe fn get_bits(&self, bit_range: Range<usize>) -> (r: Self)
        requires bit_range.start <= bit_range.end <= self.nbits(), bit_range.end <= max_bit(),
        ensures r.result_of(bit_range.end - bit_range.start), forall|i: int| #[trigger] r.bit(i) == (0 <= i < bit_range.end - bit_range.start && self.bit(bit_range.start + i));
    unsafe fn get_bits_as_usize(&self, bit_range: Range<usize>) -> (r: usize)
        requires bit_range.start <= bit_range.end <= self.nbits(), bit_range.end <= max_bit(), bit_range.end - bit_range.start <= 64,
        ensures forall|i: int| #[trigger] int_usize::tb(r, i) == (0 <= i < bit_range.end - bit_range.start && self.bit(bit_range.start + i));
    unsafe fn set_bits(&mut self, bit_range: Range<usize>, new_value: Self)
        requires bit_range.start <= bit_range.end <= old(self).nbits(), bit_range.end <= max_bit(), bit_range.start < old(self).nbits(), new_value.source(bit_range.end - bit_range.start),
        ensures final(self).nbits() == old(self).nbits(), forall|i: int| #[trigger] final(self).bit(i) == (if bit_range.start <= i < bit_range.end { new_value.bit(i - bit_range.start) } else { old(self).bit(i) });
    unsafe fn set_bits_from_usize(&mut self, bit_range: Range<usize>, new_value: usize)
        requires bit_range.start <= bit_range.end <= old(self).nbits(), bit_range.end <= max_bit(), bit_range.start < old(self).nbits(), Self::source_usize(new_value, bit_range.end - bit_range.start),
        ensures final(self).nbits() == old(self).nbits(), forall|i: int| #[trigger] final(self).bit(i) == (if bit_range.start <= i < bit_range.end { int_usize::tb(new_value, i - bit_range.start) } else { old(self).bit(i) });
    unsafe fn as_u8(self) -> (r: u8)
        requires self.nbits() >= 8,
        ensures forall|i: int| #[trigger] int_u8::tb(r, i) == (0 <= i < 8 && self.bit(i));
    unsafe fn from_u8(val: u8) -> (r: Self)
        ensures Self::sized(r.nbits()), r.nbits() >= 8, forall|i: int| #[trigger] r.bit(i) == (0 <= i < 8 && int_u8::tb(val, i));
    unsafe fn from_u16(val: u16) -> (r: Self)
        ensures Self::sized(r.nbits()), r.nbits() >= 8, forall|i: int| #[trigger] r.bit(i) == (0 <= i < 16 && i < r.nbits() && int_u16::tb(val, i));
    unsafe fn from_u32(val: u32) -> (r: Self)
        ensures Self::sized(r.nbits()), r.nbits() >= 8, forall|i: int| #[trigger] r.bit(i) == (0 <= i < 32 && i < r.nbits() && int_u32::tb(val, i));
    unsafe fn from_u64(val: u64) -> (r: Self)
        ensures Self::sized(r.nbits()), r.nbits() >= 8, forall|i: int| #[trigger] r.bit(i) == (0 <= i < 64 && i < r.nbits() && int_u64::tb(val, i));
    unsafe fn as_u16(self) -> (r: u16)
        requires Self::converts(self.nbits(), 16),
        ensures forall|i: int| #[trigger] int_u16::tb(r, i) == (0 <= i < 16 && self.bit(i));
    unsafe fn as_u32(self) -> (r: u32)
        requires Self::converts(self.nbits(), 32),
        ensures forall|i: int| #[trigger] int_u32::tb(r, i) == (0 <= i < 32 && self.bit(i));
    unsafe fn as_u64(self) -> (r: u64)
        requires Self::converts(self.nbits(), 64),
        ensures forall|i: int| #[trigger] int_u64::tb(r, i) == (0 <= i < 64 && self.bit(i));
    unsafe fn as_u128(self) -> (r: u128)
        requires Self::converts(self.nbits(), 128),
        ensures forall|i: int| #[trigger] int_u128::tb(r, i) == (0 <= i < 128 && self.bit(i));
    unsafe fn as_usize(self) -> (r: usize)
        requires Self::converts(self.nbits(), 64),
        ensures forall|i: int| #[trigger] int_usize::tb(r, i) == (0 <= i < 64 && self.bit(i));
    unsafe fn from_u128(val: u128) -> (r: Self)
        ensures Self::sized(r.nbits()), r.nbits() >= 8, forall|i: int| #[trigger] r.bit(i) == (0 <= i < 128 && i < r.nbits() && int_u128::tb(val, i));
    unsafe fn from_usize(val: usize) -> (r: Self)
        ensures Self::sized(r.nbits()), r.nbits() >= 8, forall|i: int| #[trigger] r.bit(i) == (0 <= i < 64 && i < r.nbits() && int_usize::tb(val, i));
    unsafe fn from_u8_slice(bytes: &[u8], endianness: Endianness) -> (r: Self)
        ensures r.nbits() == 8 * Self::bytes_taken(bytes@.len() as int), forall|i: int| #[trigger] r.bit(i) == int_vec::vb(ordered(bytes@, Self::bytes_taken(bytes@.len() as int), endianness), i);
    fn size(&self) -> (r: usize)
        ensures 8 * r == self.nbits();
    unsafe fn as_u8_slice(&self) -> (r: &[u8])
        ensures 8 * r@.len() == self.nbits(), forall|i: int| #[trigger] int_vec::vb(r@, i) == self.bit(i);
    unsafe fn as_u8_slice_mut(&mut self) -> (r: &mut [u8])
        ensures 8 * r@.len() == old(self).nbits(), forall|i: int| #[trigger] int_vec::vb(r@, i) == old(self).bit(i),
            // writing the bytes writes the bits
            final(r)@.len() == r@.len() ==> final(self).nbits() == old(self).nbits() && forall|i: int| #[trigger] final(self).bit(i) == int_vec::vb(final(r)@, i);
}
«INTS»
pub mod int_vec {
use super::*;
/// a byte string as one little-endian bit string
pub open spec fn vb(v: Seq<u8>, i: int) -> bool { 0 <= i < 8 * v.len() && int_u8::tb(v[i / 8], i % 8) }

pub proof fn usize_bytes(v: usize)
    ensures v.ne_bytes().len() == 8, forall|i: int| 0 <= i < 64 ==> #[trigger] vb(v.ne_bytes(), i) == int_usize::tb(v, i),
{
    broadcast use int_usize::bits;
    int_usize::to_u8_all();
    assert forall|i: int| 0 <= i < 64 implies #[trigger] vb(v.ne_bytes(), i) == int_usize::tb(v, i) by {
        assert(v.ne_bytes()[i / 8] == (v >> ((8 * (i / 8)) as usize)) as u8);
    }
}
//@extract number.rs fn|set_vec_u8_bits
//@props C15 C02
//@loops 1
//@at spec
    requires bit_range.start <= bit_range.end <= 8 * old(vec)@.len(), new_value@.len() >= 1, bit_range.end - bit_range.start <= 8 * new_value@.len(), bit_range.end <= max_bit(),
    ensures final(vec)@.len() == old(vec)@.len(), forall|i: int| #[trigger] vb(final(vec)@, i) == (if bit_range.start <= i < bit_range.end { vb(new_value@, i - bit_range.start) } else { vb(old(vec)@, i) }),
//@at loop 0 inv
    invariant
        bit_range.start <= bit_range.end <= 8 * vec@.len(), new_value@.len() >= 1, bit_range.end - bit_range.start <= 8 * new_value@.len(), bit_range.end <= max_bit(),
        vec@.len() == old(vec)@.len(),
        self_start_bit == (if self_byte_idx == __lo0 { bit_range.start as int } else if 8 * self_byte_idx < bit_range.end { 8 * self_byte_idx } else { bit_range.end as int }),
        new_val_start_bit == self_start_bit - bit_range.start,
        forall|i: int| #[trigger] vb(vec@, i) == (if bit_range.start <= i < self_start_bit { vb(new_value@, i - bit_range.start) } else { vb(old(vec)@, i) }),
//@at loop 0 start
    let ghost before = vec@;
    broadcast use {int_u16::bits, int_u16::b_link, int_u8::b_link};
    proof { int_u16::from_u8_all(); int_u16::to_u8_all(); }
//@at loop 0 end
    proof {
        assert forall|i: int| #[trigger] vb(vec@, i) == (if bit_range.start <= i < self_start_bit { vb(new_value@, i - bit_range.start) } else { vb(old(vec)@, i) }) by {
            assert(vb(before, i) == (if bit_range.start <= i < self_start_bit - (num_bits_in_chunk as int) { vb(new_value@, i - bit_range.start) } else { vb(old(vec)@, i) }));
        }
    }
//@end

impl Bits for Vec<u8> {
    open spec fn bit(&self, i: int) -> bool { vb(self@, i) }
    open spec fn nbits(&self) -> int { (8 * self@.len()) as int }
    open spec fn sized(n: int) -> bool { n % 8 == 0 }
    open spec fn result_of(&self, n: int) -> bool { self@.len() == (n + 7) / 8 }
    open spec fn source(&self, n: int) -> bool { self@.len() >= 1 && n <= 8 * self@.len() }
    open spec fn source_usize(v: usize, n: int) -> bool { n <= 64 }
    open spec fn converts(n: int, w: int) -> bool { n == w }
    open spec fn bytes_taken(n: int) -> int { n }
    proof fn lemma_bit(&self, i: int) {}
    proof fn lemma_result(&self, n: int) {}
    proof fn lemma_usize(v: usize, n: int) {}
    proof fn lemma_source(&self, n: int) {}
    //@const number.rs Vec<u8>|Bits|BITS => const BITS: usize = $;
    //@extract number.rs Vec<u8>|Bits|get_bits
    //@ret r
    //@props C15
    //@loops 1
    //@at loop 0 inv
    invariant bytes@.len() == __hi0,
        bit_range.start <= bit_range.end <= 8 * self@.len(), bit_range.end <= max_bit(),
        start_byte == bit_range.start / 8, end_byte == (bit_range.end + 7) / 8, shift_within_byte == bit_range.start % 8,
        forall|k: int| idx <= k < bytes@.len() ==> #[trigger] bytes@[k] == self@[start_byte + k],
        forall|i: int| #![trigger int_u8::tb(bytes@[i / 8], i % 8)] 0 <= i < 8 * idx ==> int_u8::tb(bytes@[i / 8], i % 8) == (i < bit_range.end - bit_range.start && (i + shift_within_byte < 8 * idx || idx == __hi0) && vb(self@, bit_range.start + i)),
    //@at loop 0 start
    let ghost before = bytes@;
    broadcast use {int_u8::bits, int_u8::b_link};
    //@at loop 0 end
    proof {
        assert forall|i: int| #![trigger int_u8::tb(bytes@[i / 8], i % 8)] 0 <= i < 8 * (idx + 1) implies int_u8::tb(bytes@[i / 8], i % 8) == (i < bit_range.end - bit_range.start && (i + shift_within_byte < 8 * (idx + 1) || idx + 1 == __hi0) && vb(self@, bit_range.start + i)) by {
        }
    }
    //@end
    //@extract number.rs Vec<u8>|Bits|set_bits
    //@props C15
    //@end
    //@extract number.rs Vec<u8>|Bits|get_bits_as_usize
    //@ret r
    //@props C15 C02
    //@loops 1
    //@at loop 0 inv
    invariant
        bit_range.start <= bit_range.end <= 8 * self@.len(), bit_range.end <= max_bit(), bit_range.end - bit_range.start <= 64,
        current_start_bit == (if idx == __lo0 { bit_range.start as int } else if 8 * idx < bit_range.end { 8 * idx } else { bit_range.end as int }),
        usize_start_bit == current_start_bit - bit_range.start,
        forall|i: int| #[trigger] int_usize::tb(ret, i) == (0 <= i < usize_start_bit && vb(self@, bit_range.start + i)),
    //@at loop 0 start
    let ghost before = ret;
    broadcast use {int_u8::b_link, int_usize::b_link};
    proof { int_usize::from_u8_all(); }
    //@at start
    broadcast use int_usize::b_zero;
    //@end
    //@extract number.rs Vec<u8>|Bits|set_bits_from_usize
    //@props C15 C02
    //@at start
    proof { usize_bytes(new_value); }
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u8
    //@ret r
    //@props C20
    //@end
    //@extract number.rs Vec<u8>|Bits|from_u8
    //@ret r
    //@props C20
    //@end
    //@extract number.rs Vec<u8>|Bits|from_u16
    //@ret r
    //@props C20
    //@at start
    proof { int_u16::byte_bits(val); }
    //@end
    //@extract number.rs Vec<u8>|Bits|from_u32
    //@ret r
    //@props C20
    //@at start
    proof { int_u32::byte_bits(val); }
    //@end
    //@extract number.rs Vec<u8>|Bits|from_u64
    //@ret r
    //@props C20
    //@at start
    proof { int_u64::byte_bits(val); }
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u16
    //@ret r
    //@props C20
    //@at end
    proof { int_u16::byte_bits(r); }
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u32
    //@ret r
    //@props C20
    //@at end
    proof { int_u32::byte_bits(r); }
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u64
    //@ret r
    //@props C20
    //@at end
    proof { int_u64::byte_bits(r); }
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u128
    //@ret r
    //@props C20
    //@at end
    proof { int_u128::byte_bits(r); }
    //@end
    //@extract number.rs Vec<u8>|Bits|as_usize
    //@ret r
    //@props C20
    //@at end
    proof { int_usize::byte_bits(r); }
    //@end
    //@extract number.rs Vec<u8>|Bits|from_u128
    //@ret r
    //@props C20
    //@at start
    proof { int_u128::byte_bits(val); }
    //@end
    //@extract number.rs Vec<u8>|Bits|from_usize
    //@ret r
    //@props C20
    //@at start
    proof { int_usize::byte_bits(val); }
    //@end
    //@extract number.rs Vec<u8>|Bits|from_u8_slice
    //@ret r
    //@props C20
    //@at end
    proof { assert(r@ =~= ordered(bytes@, bytes@.len() as int, endianness)); }
    //@end
    //@extract number.rs Vec<u8>|Bits|size
    //@ret r
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u8_slice
    //@ret r
    //@props C20
    //@end
    //@extract number.rs Vec<u8>|Bits|as_u8_slice_mut
    //@ret r
    //@props C20
    //@end
}
}
}
}
