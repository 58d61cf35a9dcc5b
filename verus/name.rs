pub mod name {
use vstd::prelude::*;
use super::vx;
use core::cmp::Ordering;
verus! {
//@struct morton.rs MortonIndexNaming #[derive(Clone, Copy)]
pub open spec fn digit(n: int) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
/// decimal, without leading zeros
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) } }
pub trait Named {
    /// the index is well formed, and its grid coordinates fit when they are asked for
    spec fn named(&self, n: MortonIndexNaming) -> bool;
    spec fn name(&self, n: MortonIndexNaming) -> Seq<char>;
    fn to_string(&self, naming: MortonIndexNaming) -> (r: String) requires self.named(naming) ensures r@ == self.name(naming);
}
/// `{}` of a value
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl<T: Shown> Shown for &T { open spec fn shown(&self) -> Seq<char> { (*self).shown() } }
pub assume_specification[ core::char::from_digit ](num: u32, radix: u32) -> (r: Option<char>) requires radix <= 36 ensures radix == 10 ==> r == if num < 10 { Some(digit(num as int)) } else { None::<char> };
/// the text of the first k elements of a slice, with the separators that follow them
pub open spec fn elements<T: Named>(s: Seq<T>, n: MortonIndexNaming, k: int) -> Seq<char> decreases k {
    if k <= 0 { seq!['['] } else { elements(s, n, k - 1) + s[k - 1].name(n) + if k < s.len() { seq![',', ' '] } else { seq![] } }
}
//@gsub T : MortonIndex~>T: Named
//@gsub std :: fmt :: Formatter < '_ >~>vx::Sink
//@gsub std :: fmt :: Result~>Result<(), vx::SinkError>
//@struct helper.rs DisplayableMortonIndexSlice
impl<'a, T: Named> Shown for DisplayableMortonIndexSlice<'a, T> { open spec fn shown(&self) -> Seq<char> { elements(self.morton_indices@, self.naming, self.morton_indices@.len() as int).push(']') } }
pub open spec fn all_named<T: Named>(s: Seq<T>, n: MortonIndexNaming) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).named(n) }
/// what both implementations of `fmt` promise
pub trait Display: Shown + Sized {
    spec fn ready(&self) -> bool;
    fn fmt(&self, f: &mut vx::Sink) -> (r: Result<(), vx::SinkError>) requires self.ready() ensures r is Ok ==> final(f)@ == old(f)@ + self.shown();
}
impl<'a, T: Named> Display for DisplayableMortonIndexSlice<'a, T> {
    open spec fn ready(&self) -> bool { all_named(self.morton_indices@, self.naming) }
    //@extract helper.rs DisplayableMortonIndexSlice<'a,T>|Display|fmt
    //@ret r
    //@props C12
    //@loops 1
    //@at loop 0 inv
        invariant all_named(self.morton_indices@, self.naming), f@ == old(f)@ + elements(self.morton_indices@, self.naming, idx as int),
    //@at loop 0 end
        proof { assert(f@ =~= old(f)@ + elements(self.morton_indices@, self.naming, idx + 1)); }
    //@at loop 0 before
        proof { assert(f@ =~= old(f)@ + elements(self.morton_indices@, self.naming, 0)); }
    //@at end
        proof { if r is Ok { assert(f@ =~= old(f)@ + self.shown()); } }
    //@end
}
impl<'a, T: Named> DisplayableMortonIndexSlice<'a, T> {
    //@extract helper.rs DisplayableMortonIndexSlice<'a,T>|std::fmt::Debug|fmt
    //@name debug_fmt
    //@ret r
    //@props C12
    //@at spec
        requires self.ready(),
        ensures r is Ok ==> final(f)@ == old(f)@ + self.shown(),
    //@at end
        proof { if r is Ok { assert(f@ =~= old(f)@ + self.shown()); } }
    //@end
}
/// what `==` and `cmp` of two values answer (any type; `Ord` and `PartialOrd` of the indices agree, see C07)
pub uninterp spec fn equal<T>(a: T, b: T) -> bool;
pub uninterp spec fn order<T>(a: T, b: T) -> Ordering;
/// slices are compared element by element, the shorter one first
pub open spec fn slices_equal<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> equal(#[trigger] a[k], b[k]) }
pub open spec fn slices_order<T>(a: Seq<T>, b: Seq<T>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } } else if b.len() == 0 { Ordering::Greater }
    else { match order(a[0], b[0]) { Ordering::Equal => slices_order(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)), o => o } }
}
/// `a == b`, `a.cmp(b)` and `a.partial_cmp(b)` of slices
#[verifier::external_body]
pub fn slice_eq<T>(a: &[T], b: &[T]) -> (r: bool) ensures r == slices_equal(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn slice_cmp<T>(a: &[T], b: &[T]) -> (r: Ordering) ensures r == slices_order(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn slice_partial_cmp<T>(a: &[T], b: &[T]) -> (r: Option<Ordering>) ensures r == Some(slices_order(a@, b@)) { unimplemented!() }
impl<'a, T: Named> DisplayableMortonIndexSlice<'a, T> {
    //@extract helper.rs DisplayableMortonIndexSlice<'a,T>|PartialEq|eq
    //@sub self . morton_indices == other . morton_indices~>slice_eq(self.morton_indices, other.morton_indices)
    //@ret r
    //@props C12
    //@at spec
        ensures r == slices_equal(self.morton_indices@, other.morton_indices@),
    //@end
    //@extract helper.rs DisplayableMortonIndexSlice<'a,T>|PartialOrd|partial_cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@sub self . morton_indices . partial_cmp (& other . morton_indices)~>slice_partial_cmp(self.morton_indices, other.morton_indices)
    //@ret r
    //@props C12
    //@at spec
        ensures r == Some(slices_order(self.morton_indices@, other.morton_indices@)),
    //@end
    //@extract helper.rs DisplayableMortonIndexSlice<'a,T>|Ord|cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@sub self . morton_indices . cmp (& other . morton_indices)~>slice_cmp(self.morton_indices, other.morton_indices)
    //@ret r
    //@props C12
    //@at spec
        ensures r == slices_order(self.morton_indices@, other.morton_indices@),
    //@end
}
//@extract helper.rs fn|make_displayable
//@ret r
//@props C12
//@at spec
    ensures r.morton_indices@ == morton_indices@, r.naming == naming,
//@end
pub proof fn c12_empty_slice<T: Named>(d: DisplayableMortonIndexSlice<T>) requires d.morton_indices@.len() == 0 ensures d.shown() == seq!['[', ']'] { assert(d.shown() =~= seq!['[', ']']); }
pub proof fn c12_one<T: Named>(d: DisplayableMortonIndexSlice<T>) requires d.morton_indices@.len() == 1 ensures d.shown() == seq!['['] + d.morton_indices@[0].name(d.naming) + seq![']'] { reveal_with_fuel(elements, 3); assert(d.shown() =~= seq!['['] + d.morton_indices@[0].name(d.naming) + seq![']']); }
pub proof fn c12_two<T: Named>(d: DisplayableMortonIndexSlice<T>) requires d.morton_indices@.len() == 2 ensures d.shown() == seq!['['] + d.morton_indices@[0].name(d.naming) + seq![',', ' '] + d.morton_indices@[1].name(d.naming) + seq![']'] { reveal_with_fuel(elements, 4); assert(d.shown() =~= seq!['['] + d.morton_indices@[0].name(d.naming) + seq![',', ' '] + d.morton_indices@[1].name(d.naming) + seq![']']); }
}
}
