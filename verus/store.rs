//@gsub < Dim«D»D , B >~>< B >
//@gsub crate :: Error~>Error
//@gsub Self :: Error~>Error
//@gsub & 'a~>&
//@gsub < Dim«D»D as Dimension > :: Cell~>«CELL»
pub mod d«D» {
use vstd::prelude::*;
use core::ops::Range;
use core::marker::PhantomData;
use std::num::NonZeroUsize;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use super::vx;
use super::vx::{State, fed};
use super::number::*;
use super::name::*;
use super::number::int_vec::vb;
use super::spread::*;
verus! {
broadcast use {int_usize::b_link, int_u8::b_link};

//@struct error.rs Error #[derive(Debug)]

// ---- cells ----------------------------------------------------------------------------------------------------------
//@struct dimensions/dim_«D»d.rs «CELL» #[derive(Clone, Copy)]
pub open spec fn num(c: «CELL») -> usize { match c { «ARMS» } }
pub open spec fn of_num(n: int) -> «CELL» { «OFNUM» }
pub proof fn num_facts() ensures forall|c: «CELL»| #[trigger] num(c) < «CELLS», forall|c: «CELL»| of_num(#[trigger] num(c) as int) == c, forall|n: int| 0 <= n < «CELLS» ==> num(#[trigger] of_num(n)) == n {}
/// bit j of a cell number
pub open spec fn cbit(n: int, j: int) -> bool { int_usize::tb(n as usize, j) }
impl IntoSpecImpl<usize> for «CELL» { open spec fn obeys_into_spec() -> bool { true } open spec fn into_spec(self) -> usize { num(self) } }
impl TryFromSpecImpl<usize> for «CELL» { open spec fn obeys_try_from_spec() -> bool { true } open spec fn try_from_spec(v: usize) -> Result<«CELL», Error> { if v < «CELLS» { Ok(of_num(v as int)) } else { Err(Error::CellIndexOutOfRange) } } }
impl Into<usize> for «CELL» {
//@extract dimensions/dim_«D»d.rs «CELL»|Into<usize>|into
//@props C18
//@ret r
//@end
}
impl TryFrom<usize> for «CELL» {
type Error = Error;
//@extract dimensions/dim_«D»d.rs «CELL»|TryFrom<usize>|try_from
//@sub crate :: Error~>Error
//@props C18
//@ret r
//@end
}
pub struct «DIM»;
impl «DIM» {
//@const dimensions/dim_«D»d.rs «DIM»|Dimension|DIMENSIONALITY => pub const DIMENSIONALITY: usize = $;
}

// ---- cells within a bit string --------------------------------------------------------------------------------------
pub open spec fn b2i(b: bool, w: int) -> int { if b { w } else { 0 } }
/// number of the cell at level l in the top of the first n bits of b
pub open spec fn cnum<B: Bits>(b: B, n: int, l: int) -> int { let s = n - (l + 1) * «D»; «CSUM» }
pub proof fn cnum_range<B: Bits>(b: B, n: int, l: int) ensures 0 <= cnum(b, n, l) < «CELLS» {}
proof fn small_bv(v: usize) by(bit_vector) requires v < «CELLS» ensures v == «BVSUM», forall|i: usize| «D» <= i && i < 64 ==> #[trigger] (v >> i) & 1 == 0, «BVONE»
{}
/// a number below «CELLS» and its bits
pub proof fn small(v: usize) requires v < «CELLS» ensures v == «TBSUM», forall|i: int| i >= «D» ==> !#[trigger] int_usize::tb(v, i)
{ small_bv(v); assert forall|i: int| i >= «D» implies !#[trigger] int_usize::tb(v, i) by { if i < 64 { assert((v >> (i as usize)) & 1 == 0); } } }
proof fn bits_bv(v: usize) by(bit_vector) requires forall|i: usize| «D» <= i && i < 64 ==> #[trigger] (v >> i) & 1 == 0 ensures v < «CELLS»
{}
/// a number with only «D» low bits
pub proof fn few_bits(v: usize) requires forall|i: int| «D» <= i < 64 ==> !#[trigger] int_usize::tb(v, i) ensures v < «CELLS», v == «TBSUM»
{
    assert forall|i: usize| «D» <= i && i < 64 implies #[trigger] (v >> i) & 1 == 0 by { assert(!int_usize::tb(v, i as int)); one_bv(v, i); }
    bits_bv(v);
    small(v);
}
proof fn one_bv(x: usize, i: usize) by(bit_vector) ensures (x >> i) & 1 == 0 || (x >> i) & 1 == 1
{}

/// `few_bits` where a number is turned into a cell
pub broadcast proof fn values(v: usize) requires forall|i: int| «D» <= i < 64 ==> !int_usize::tb(v, i) ensures v < «CELLS», num(#[trigger] of_num(v as int)) == v, v == «TBSUM» { few_bits(v); }
pub broadcast proof fn result_bits<T: Bits>(t: T, n: int) requires n >= 1, #[trigger] t.result_of(n) ensures t.nbits() >= 8 { t.lemma_result(n); }
pub broadcast proof fn cell_source<T: Bits>(t: T) requires t.nbits() >= 8, forall|i: int| «D» <= i ==> !#[trigger] t.bit(i) ensures #[trigger] t.source(«D») { t.lemma_source(«D»); }
pub broadcast proof fn cell_source_usize<T: Bits>(v: usize, n: int) requires forall|i: int| «D» <= i ==> !#[trigger] int_usize::tb(v, i), n == «D» ensures #[trigger] T::source_usize(v, n) { T::lemma_usize(v, n); }

/// `Default`, with a specification; the implementations are what `derive(Default)` generates
pub trait Default: Sized { spec fn is_default(&self) -> bool; fn default() -> (r: Self) ensures r.is_default(); }
impl Default for Vec<u8> { open spec fn is_default(&self) -> bool { self@.len() == 0 } fn default() -> (r: Self) { Vec::new() } }

// ---- StorageType ----------------------------------------------------------------------------------------------------
/// integer types: copyable, of a known number of bits
pub trait FixedStorageType: Bits + Copy + Default + PartialEq + Eq + PartialOrd + Ord {
    /// the number that the type's order is the order of
    spec fn val(&self) -> int;
    proof fn lemma_order() ensures Self::obeys_eq_spec(), Self::obeys_partial_cmp_spec(), Self::obeys_cmp_spec(),
        forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == (a == b),
        forall|a: Self, b: Self| #[trigger] a.partial_cmp_spec(&b) == Some(if a.val() < b.val() { Ordering::Less } else if a.val() == b.val() { Ordering::Equal } else { Ordering::Greater }),
        forall|a: Self, b: Self| #[trigger] a.cmp_spec(&b) == (if a.val() < b.val() { Ordering::Less } else if a.val() == b.val() { Ordering::Equal } else { Ordering::Greater });
    proof fn lemma_highest(&self, other: Self, h: int) requires 0 <= h < Self::BITS, self.bit(h) != other.bit(h), forall|i: int| h < i ==> #[trigger] self.bit(i) == other.bit(i) ensures (self.val() < other.val()) == other.bit(h);
    proof fn lemma_fixed(&self) ensures self.nbits() == Self::BITS, 8 <= Self::BITS <= 128, Self::BITS % 8 == 0, Self::sized(Self::BITS as int);
    proof fn lemma_sized(n: int) ensures Self::sized(n) == (n == Self::BITS);
    proof fn lemma_source_fixed(&self, n: int) requires 0 <= n <= self.nbits(), forall|i: int| n <= i ==> !#[trigger] self.bit(i) ensures self.source(n);
    proof fn lemma_ext(&self, other: Self) requires forall|i: int| 0 <= i < Self::BITS ==> #[trigger] self.bit(i) == other.bit(i) ensures *self == other;
    proof fn lemma_zero() ensures forall|v: Self| #[trigger] v.is_default() ==> forall|i: int| !#[trigger] v.bit(i);
}
«FIXEDIMPLS»

pub trait StorageType {
    const MAX_LEVELS: usize;
    const DIMENSIONALITY: usize;
    /// one past the topmost bit that belongs to a cell
    spec fn base<T: Bits>(b: T) -> int;
    spec fn max_spec() -> Option<usize>;
    fn max_depth() -> (r: Option<usize>) ensures r == Self::max_spec();
    unsafe fn get_cell_at_level_unchecked<T: Bits>(bits: &T, level: usize) -> (r: «CELL»)
        requires (level + 1) * «D» <= Self::base(*bits) <= bits.nbits() <= max_bit(), 8 <= bits.nbits(),
        ensures num(r) == cnum(*bits, Self::base(*bits), level as int);
    unsafe fn set_cell_at_level_unchecked<T: Bits>(bits: &mut T, level: usize, cell: «CELL»)
        requires (level + 1) * «D» <= Self::base(*old(bits)) <= old(bits).nbits() <= max_bit(), 8 <= old(bits).nbits(),
        ensures final(bits).nbits() == old(bits).nbits(), Self::base(*final(bits)) == Self::base(*old(bits)),
            forall|i: int| #[trigger] final(bits).bit(i) == (if Self::base(*old(bits)) - (level + 1) * «D» <= i < Self::base(*old(bits)) - level * «D» { cbit(num(cell) as int, i - (Self::base(*old(bits)) - (level + 1) * «D»)) } else { old(bits).bit(i) });
}
«STORAGETYPES»

/// writing the «D» bits of one level changes the number of that level's cell only
pub proof fn set_cells<B: Bits>(a: B, b: B, top: int, level: int, n: int)
    requires 0 <= n < «CELLS»,
        forall|i: int| #[trigger] b.bit(i) == (if top - (level + 1) * «D» <= i < top - level * «D» { cbit(n, i - (top - (level + 1) * «D»)) } else { a.bit(i) }),
    ensures forall|l: int| #[trigger] cnum(b, top, l) == (if l == level { n } else { cnum(a, top, l) }),
{
    small(n as usize);
    assert forall|l: int| #[trigger] cnum(b, top, l) == (if l == level { n } else { cnum(a, top, l) }) by { }
}

// ---- Storage --------------------------------------------------------------------------------------------------------
pub trait Storage: Sized {
    type StorageType: StorageType;
    type Bits: Bits;
    spec fn raw(&self) -> Self::Bits;
    /// the depth is that of the type
    spec fn fixed() -> bool;
    spec fn sdepth(&self) -> int;
    /// levels that exist in the memory of the storage
    spec fn cap(&self) -> int;
    spec fn wf(&self) -> bool;
    proof fn lemma_wf(&self) requires self.wf() ensures 0 <= self.sdepth() <= self.cap(), self.cap() * «D» <= Self::StorageType::base(self.raw()) <= self.raw().nbits() <= max_bit(), self.sdepth() <= usize::MAX, self.cap() > 0 ==> 8 <= self.raw().nbits();
    fn bits(&self) -> (r: &Self::Bits) ensures *r == self.raw();
    fn bits_mut(&mut self) -> (r: &mut Self::Bits)
        ensures *r == old(self).raw(), *final(r) == final(self).raw(), final(self).sdepth() == old(self).sdepth(),
            old(self).wf() && final(self).raw().nbits() == old(self).raw().nbits() ==> final(self).wf() && final(self).cap() == old(self).cap();
    fn depth(&self) -> (r: usize) requires self.wf() ensures r == self.sdepth();
    //@extract indices/storage.rs trait|Storage|max_depth
    //@props C03
    //@ret r
    //@at spec
        ensures r == Self::StorageType::max_spec(),
    //@end
    //@extract indices/storage.rs trait|Storage|get_cell_at_level_unchecked
    //@sub D :: Cell~>«CELL»
    //@props C01 C02
    //@ret r
    //@at spec
        requires self.wf(), level < self.cap(),
        ensures num(r) == cnum(self.raw(), Self::StorageType::base(self.raw()), level as int),
    //@at start
        proof { self.lemma_wf(); }
    //@end
    //@extract indices/storage.rs trait|Storage|set_cell_at_level_unchecked
    //@sub D :: Cell~>«CELL»
    //@props C01 C02
    //@at spec
        requires old(self).wf(), level < old(self).cap(),
        ensures final(self).wf(), final(self).sdepth() == old(self).sdepth(), final(self).cap() == old(self).cap(), Self::StorageType::base(final(self).raw()) == Self::StorageType::base(old(self).raw()), final(self).raw().nbits() == old(self).raw().nbits(),
            forall|i: int| #[trigger] final(self).raw().bit(i) == (if Self::StorageType::base(old(self).raw()) - (level + 1) * «D» <= i < Self::StorageType::base(old(self).raw()) - level * «D» { cbit(num(cell) as int, i - (Self::StorageType::base(old(self).raw()) - (level + 1) * «D»)) } else { old(self).raw().bit(i) }),
            forall|l: int| 0 <= l < old(self).cap() ==> #[trigger] cnum(final(self).raw(), Self::StorageType::base(final(self).raw()), l) == (if l == level { num(cell) as int } else { cnum(old(self).raw(), Self::StorageType::base(old(self).raw()), l) }),
    //@at start
        proof { self.lemma_wf(); small(num(cell)); num_facts(); }
    //@at end
        proof { set_cells(old(self).raw(), self.raw(), Self::StorageType::base(old(self).raw()), level as int, num(cell) as int); }
    //@end
}
/// one past the topmost bit that belongs to a level
pub open spec fn top<S: Storage>(s: S) -> int { S::StorageType::base(s.raw()) }
/// the number of the cell at a level
pub open spec fn cell<S: Storage>(s: S, l: int) -> int { cnum(s.raw(), top(s), l) }
/// all bits that belong to no level of the index are zero
pub open spec fn canon<S: Storage>(s: S) -> bool { forall|i: int| i < top(s) - «D» * s.sdepth() ==> !#[trigger] s.raw().bit(i) }

«STORAGES»
}
}
