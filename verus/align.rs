pub mod align {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
/// r is the least multiple of a that is not below x
pub open spec fn least_multiple(x: int, a: int, r: int) -> bool { multiple(r, a) && x <= r && forall|m: int| x <= m && #[trigger] multiple(m, a) ==> r <= m }
pub open spec fn multiple(m: int, a: int) -> bool { m % a == 0 }
/// the least multiple, computed
proof fn next(x: int, a: int) requires 0 <= x, 0 < a ensures 0 <= x % a < a, least_multiple(x, a, if x % a == 0 { x } else { x + (a - x % a) }) {
    let r = if x % a == 0 { x } else { x + (a - x % a) };
    lemma_fundamental_div_mod(x, a);
    lemma_mod_division_less_than_divisor(x, a);
    let q = x / a;
    if x % a != 0 { assert(r == a * q + a); lemma_mul_is_distributive_add(a, q, 1); assert(r == a * (q + 1)); lemma_mod_multiples_basic(q + 1, a); lemma_mul_is_commutative(a, q + 1); }
    assert(multiple(r, a));
    assert forall|m: int| x <= m && #[trigger] multiple(m, a) implies r <= m by {
        if m < r {
            lemma_fundamental_div_mod(m, a);
            let p = m / a;
            assert(m == a * p);
            assert(x % a != 0);
            if p <= q { lemma_mul_inequality(p, q, a); lemma_mul_is_commutative(a, p); lemma_mul_is_commutative(a, q); assert(false); }
            else { lemma_mul_inequality(q + 1, p, a); lemma_mul_is_commutative(a, p); lemma_mul_is_commutative(a, q + 1); assert(false); }
        }
    }
}
pub proof fn c17_unique(x: int, a: int, r: int, s: int) requires least_multiple(x, a, r), least_multiple(x, a, s) ensures r == s { assert(multiple(r, a) && multiple(s, a)); }
/// the least multiple of an alignment above the value is the alignment
pub proof fn c17_below_alignment(x: int, a: int) requires 0 < x <= a ensures least_multiple(x, a, a) {
    lemma_mod_self_0(a);
    assert forall|m: int| x <= m && #[trigger] multiple(m, a) implies a <= m by { if m < a { lemma_small_mod(m as nat, a as nat); } }
}
pub trait Alignable: Sized {
    spec fn val(&self) -> int;
    spec fn max() -> int;
    fn align_to(&self, alignment: Self) -> (r: Self)
        requires alignment.val() != 0 ==> exists|r: int| least_multiple(self.val(), alignment.val(), r) && r <= Self::max(),
        ensures alignment.val() == 0 ==> r.val() == self.val(), alignment.val() != 0 ==> least_multiple(self.val(), alignment.val(), r.val());
}
«ALIGNS»
}
}
