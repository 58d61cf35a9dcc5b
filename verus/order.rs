// ---- order -------------------------------------------------------------------------------------------------------------
/// s comes before t in the lexicographic order of the cell sequences, the first difference being at level l
pub open spec fn before_at<S: Storage>(s: S, t: S, l: int) -> bool {
    0 <= l < t.sdepth() && l <= s.sdepth() && same_cells(s, t, l) && (l < s.sdepth() ==> cell(s, l) < cell(t, l))
}
pub open spec fn before<S: Storage>(s: S, t: S) -> bool { exists|l: int| before_at(s, t, l) }
pub open spec fn same_index<S: Storage>(s: S, t: S) -> bool { s.sdepth() == t.sdepth() && same_cells(s, t, s.sdepth()) }
pub open spec fn ordered<S: Storage>(s: S, t: S, r: Ordering) -> bool { match r { Ordering::Less => before(s, t), Ordering::Equal => same_index(s, t), Ordering::Greater => before(t, s) } }
/// an irreflexive, transitive and total order on the cell sequences
pub proof fn order_irreflexive<S: Storage>(s: S, t: S) requires same_index(s, t) ensures !before(s, t), !before(t, s) {
    if before(s, t) { let l = choose|l: int| before_at(s, t, l); assert(cell(s, l) == cell(t, l)); }
    if before(t, s) { let l = choose|l: int| before_at(t, s, l); assert(cell(s, l) == cell(t, l)); }
}
pub proof fn order_transitive<S: Storage>(s: S, t: S, u: S) requires before(s, t), before(t, u) ensures before(s, u) {
    let l = choose|l: int| before_at(s, t, l);
    let m = choose|m: int| before_at(t, u, m);
    let k = if l < m { l } else { m };
    assert(same_cells(s, u, k)) by { assert forall|j: int| 0 <= j < k implies #[trigger] cell(s, j) == cell(u, j) by { assert(cell(s, j) == cell(t, j)); assert(cell(t, j) == cell(u, j)); } }
    if l < m { assert(cell(t, l) == cell(u, l)); } else if m < l { assert(cell(s, m) == cell(t, m)); }
    assert(before_at(s, u, k));
}
pub proof fn order_asymmetric<S: Storage>(s: S, t: S) requires before(s, t) ensures !before(t, s), !same_index(s, t) {
    if before(t, s) { order_transitive(s, t, s); order_irreflexive(s, s); }
    if same_index(s, t) { order_irreflexive(s, t); }
}

/// things compared by a number
pub open spec fn by_rank(a: nat, b: nat) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait Ranked: Sized { spec fn rank(&self) -> nat; fn cmp(&self, other: &Self) -> (r: Ordering) ensures r == by_rank(self.rank(), other.rank()); }
impl Ranked for «CELL» {
    open spec fn rank(&self) -> nat { num(*self) as nat }
    //@extract dimensions/dim_«D»d.rs «CELL»|derive(Ord)|cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@end
}
impl «CELL» {
    //@extract dimensions/dim_«D»d.rs «CELL»|derive(PartialOrd)|partial_cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@at spec
        ensures r == Some(by_rank(num(*self) as nat, num(*other) as nat)),
    //@end
    //@extract dimensions/dim_«D»d.rs «CELL»|derive(PartialEq)|eq
    //@ret r
    //@props C18
    //@at spec
        ensures r == (num(*self) == num(*other)),
    //@end
}
/// the library's `Ord` of an `Option`: `None` first, then by the values
impl<T: Ranked> Ranked for Option<T> {
    open spec fn rank(&self) -> nat { match self { None => 0, Some(c) => 1 + c.rank() } }
    #[verifier::external_body]
    fn cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
}
impl DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|-|get_cell_at_level_or_none
    //@sub . into ()~>
    //@ret r
    //@props C07
    //@at spec
        requires self.wf(),
        ensures match r { None => level >= self.depth, Some(c) => level < self.depth && num(c) == cell(*self, level as int) },
    //@end
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|Ord|cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@loops 1
    //@at spec
        requires self.wf(), other.wf(),
        ensures ordered(*self, *other, r),
    //@at start
        proof { num_facts(); }
    //@at loop 0 inv
        invariant self.wf(), other.wf(),
            level <= self.depth, level <= other.depth, same_cells(*self, *other, level as int),
    //@at loop 0 start
        proof {
            let k = level as int;
            if self.depth <= k || cell(*self, k) < cell(*other, k) { if k < other.depth { assert(before_at(*self, *other, k)); } }
            if other.depth <= k || cell(*other, k) < cell(*self, k) { if k < self.depth { assert(before_at(*other, *self, k)); } }
        }
    //@end
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|PartialOrd|partial_cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@at spec
        requires self.wf(), other.wf(),
        ensures r.is_some(), ordered(*self, *other, r.unwrap()),
    //@end
}
/// the levels above l have the same bits
proof fn same_top_bits<S: Storage, T: Storage>(s: S, t: T, l: int) requires same_cells(s, t, l), l >= 0 ensures forall|i: int| top(s) - «D» * l <= i < top(s) ==> #[trigger] s.raw().bit(i) == t.raw().bit(i - top(s) + top(t)) {
    assert forall|i: int| top(s) - «D» * l <= i < top(s) implies #[trigger] s.raw().bit(i) == t.raw().bit(i - top(s) + top(t)) by {
        let k = (top(s) - 1 - i) / «D»;
        assert(0 <= k < l);
        assert(cell(s, k) == cell(t, k));
        assert(top(s) - (k + 1) * «D» <= i < top(s) - k * «D»);
        cell_bits(s.raw(), top(s), k);
        cell_bits(t.raw(), top(t), k);
        let j = i - (top(s) - (k + 1) * «D»);
        assert(cbit(cell(s, k), j) == s.raw().bit(i));
        assert(cbit(cell(t, k), j) == t.raw().bit(i - top(s) + top(t)));
    }
}
/// x consists of the first m levels of s (and zero bits)
pub open spec fn levels_of<S: Storage, B: Bits>(x: B, s: S, m: int, lo: int) -> bool { forall|i: int| #[trigger] x.bit(i) == (lo <= i < lo + «D» * m && s.raw().bit(top(s) - «D» * m + i - lo)) }
/// the order of the numbers made of the first m levels is that of the first differing cell
pub open spec fn decided_at<S: Storage, B: FixedStorageType>(s: S, t: S, x: B, y: B, m: int, l: int) -> bool {
    0 <= l <= m && #[trigger] same_cells(s, t, l) && (l == m ==> x == y) && (l < m ==> x != y && x.val() != y.val() && cell(s, l) != cell(t, l) && (x.val() < y.val()) == (cell(s, l) < cell(t, l)))
}
proof fn highest<S: Storage, B: FixedStorageType>(s: S, t: S, x: B, y: B, m: int, lo: int, l: int) -> (k: int)
    requires top(s) == top(t), lo >= 0, lo + «D» * m <= B::BITS, levels_of(x, s, m, lo), levels_of(y, t, m, lo), same_cells(s, t, l), 0 <= l <= m,
    ensures decided_at(s, t, x, y, m, k),
    decreases m - l,
{
    same_top_bits(s, t, l);
    if l == m {
        assert forall|i: int| 0 <= i < B::BITS implies #[trigger] x.bit(i) == y.bit(i) by { if lo <= i < lo + «D» * m { assert(s.raw().bit(top(s) - «D» * m + i - lo) == t.raw().bit(top(t) - «D» * m + i - lo)); } }
        x.lemma_ext(y);
        l
    } else if cell(s, l) == cell(t, l) {
        highest(s, t, x, y, m, lo, l + 1)
    } else {
        cell_bits(s.raw(), top(s), l);
        cell_bits(t.raw(), top(t), l);
        let (a, b) = (cell(s, l), cell(t, l));
        small(a as usize); small(b as usize);
        let j: int = «HIGHEST»;
        let h = lo + «D» * (m - l - 1) + j;
        assert((a < b) == cbit(b, j));
        assert(x.bit(h) == cbit(a, j) && y.bit(h) == cbit(b, j)) by { assert(top(s) - «D» * m + h - lo == top(s) - (l + 1) * «D» + j); }
        assert forall|i: int| h < i implies #[trigger] x.bit(i) == y.bit(i) by {
            if lo <= i < lo + «D» * m {
                let p = top(s) - «D» * m + i - lo;
                if p >= top(s) - «D» * l { assert(s.raw().bit(p) == t.raw().bit(p)); }
                else { let q = p - (top(s) - (l + 1) * «D»); assert(j < q < «D»); assert(cbit(a, q) == s.raw().bit(p)); assert(cbit(b, q) == t.raw().bit(p)); }
            }
        }
        x.lemma_highest(y, h);
        y.lemma_highest(x, h);
        l
    }
}
/// what comparing the first m levels as numbers says
proof fn numbers_decide<S: Storage, B: FixedStorageType>(s: S, t: S, x: B, y: B, m: int, lo: int)
    requires top(s) == top(t), lo >= 0, lo + «D» * m <= B::BITS, levels_of(x, s, m, lo), levels_of(y, t, m, lo), 0 <= m <= s.sdepth(), m <= t.sdepth(),
    ensures x.val() < y.val() ==> before(s, t), x.val() > y.val() ==> before(t, s), x.val() == y.val() ==> same_cells(s, t, m),
{
    let l = highest(s, t, x, y, m, lo, 0);
    if l < m { assert(same_cells(t, s, l)); if cell(s, l) < cell(t, l) { assert(before_at(s, t, l)); } else { assert(before_at(t, s, l)); } }
    else { assert(x.val() == y.val()); }
}
proof fn prefix_first<S: Storage>(s: S, t: S) requires same_cells(s, t, s.sdepth()), 0 <= s.sdepth() < t.sdepth() ensures before(s, t) { assert(before_at(s, t, s.sdepth())); }
/// what comparing the common levels as numbers says, whatever the two numbers are called
proof fn numbers_tell<S: Storage, B: FixedStorageType>(s: S, t: S)
    requires top(s) == top(t), «D» * s.sdepth() <= B::BITS, «D» * t.sdepth() <= B::BITS, 0 <= s.sdepth(), 0 <= t.sdepth(),
    ensures forall|x: B, y: B| #![trigger x.val(), y.val()] levels_of(x, s, least(s, t), 0) && levels_of(y, t, least(s, t), 0) ==>
        (x.val() < y.val() ==> before(s, t)) && (x.val() > y.val() ==> before(t, s)) && (x.val() == y.val() ==> same_cells(s, t, least(s, t)) && (s.sdepth() < t.sdepth() ==> before(s, t)) && (t.sdepth() < s.sdepth() ==> before(t, s))),
{
    let m = least(s, t);
    assert forall|x: B, y: B| #![trigger x.val(), y.val()] levels_of(x, s, m, 0) && levels_of(y, t, m, 0) implies
        (x.val() < y.val() ==> before(s, t)) && (x.val() > y.val() ==> before(t, s)) && (x.val() == y.val() ==> same_cells(s, t, m) && (s.sdepth() < t.sdepth() ==> before(s, t)) && (t.sdepth() < s.sdepth() ==> before(t, s))) by {
        numbers_decide(s, t, x, y, m, 0);
        if x.val() == y.val() {
            if s.sdepth() < t.sdepth() { prefix_first(s, t); }
            if t.sdepth() < s.sdepth() { assert(same_cells(t, s, m)); prefix_first(t, s); }
        }
    }
}
pub open spec fn least<S: Storage>(s: S, t: S) -> int { if s.sdepth() < t.sdepth() { s.sdepth() } else { t.sdepth() } }
impl<B: FixedStorageType> StaticStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|Ord|cmp
    //@ret r
    //@props C07
    //@at spec
        requires self.wf(), other.wf(),
        ensures ordered(*self, *other, r),
    //@at start
        broadcast use whole;
        proof { B::lemma_order(); self.bits.lemma_fixed(); numbers_tell::<StaticStorage«D»D<B>, B>(*self, *other); }
    //@end
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|PartialOrd|partial_cmp
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@at spec
        requires self.wf(), other.wf(),
        ensures r.is_some(), ordered(*self, *other, r.unwrap()),
    //@end
}
// ---- equality ----------------------------------------------------------------------------------------------------------
/// canonical storages with the same cells have the same bits
pub proof fn same_bits<S: Storage>(s: S, t: S)
    requires s.wf(), t.wf(), canon(s), canon(t), top(s) == top(t), same_index(s, t), forall|i: int| top(s) <= i ==> !#[trigger] s.raw().bit(i) && !t.raw().bit(i),
    ensures forall|i: int| #[trigger] s.raw().bit(i) == t.raw().bit(i),
{
    assert forall|i: int| #[trigger] s.raw().bit(i) == t.raw().bit(i) by {
        if top(s) - «D» * s.sdepth() <= i < top(s) {
            let l = (top(s) - 1 - i) / «D»;
            assert(0 <= l < s.sdepth()) by(nonlinear_arith) requires l == (top(s) - 1 - i) / «D», top(s) - «D» * s.sdepth() <= i < top(s);
            assert(cell(s, l) == cell(t, l));
            assert(top(s) - (l + 1) * «D» <= i < top(s) - l * «D»);
        }
    }
}
