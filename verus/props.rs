// ---- properties as lemmas over the contracts -----------------------------------------------------------------------------
// C01, C02: a write is read back at its level and nowhere else, and the later write wins
pub proof fn c01_write_then_read<S: Storage>(s: S, t: S, l: int, n: int) requires written(t, s, l, n), s.wf(), 0 <= l < s.cap(), 0 <= n < «CELLS» ensures cell(t, l) == n, t.sdepth() == s.sdepth(), forall|m: int| 0 <= m < s.cap() && m != l ==> #[trigger] cell(t, m) == cell(s, m) {}
pub proof fn c02_writes_commute<S: Storage>(s: S, t: S, u: S, v: S, w: S, l: int, n: int, k: int, p: int)
    requires s.wf(), 0 <= l < s.cap(), 0 <= k < s.cap(), l != k, written(t, s, l, n), written(u, t, k, p), written(v, s, k, p), written(w, v, l, n),
    ensures forall|m: int| 0 <= m < s.cap() ==> #[trigger] cell(u, m) == cell(w, m),
{
    assert forall|m: int| 0 <= m < s.cap() implies #[trigger] cell(u, m) == cell(w, m) by { assert(cell(t, m) == if m == l { n } else { cell(s, m) }); assert(cell(v, m) == if m == k { p } else { cell(s, m) }); }
}
// C03: the cells determine the index
pub proof fn c03_unique<S: Storage>(c: Seq<«CELL»>, s: S, t: S) requires from_cells(c, Ok::<S, Error>(s)), from_cells(c, Ok::<S, Error>(t)), s.sdepth() == t.sdepth() ensures same_index(s, t) {
    assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(t, l) by { if l < c.len() { assert(cell(s, 0 + l) == num(c[l])); assert(cell(t, 0 + l) == num(c[l])); } }
}
/// cells are equal when their bits are
proof fn cells_equal<S: Storage, T: Storage>(s: S, l: int, t: T, m: int) requires forall|j: int| 0 <= j < «D» ==> #[trigger] cbit(cell(s, l), j) == cbit(cell(t, m), j) ensures cell(s, l) == cell(t, m) {
    cnum_range(s.raw(), top(s), l); cnum_range(t.raw(), top(t), m);
    small(cell(s, l) as usize); small(cell(t, m) as usize);
    «CBITS»
}
/// what `to_grid_index` returns
pub open spec fn grid_of<S: Storage>(s: S, o: «CELL»Ordering, g: Vector«D») -> bool { forall|a: int, i: int| 0 <= a < «D» ==> #[trigger] int_usize::tb(comp(g, a), i) == grid_bit(s, o, a, i) }
// C04/C05, C06: position -> index -> position keeps the depth's lowest bits
pub proof fn «PLACE»_there_and_back<S: Storage>(s: S, o: «CELL»Ordering, g: Vector«D», h: Vector«D») requires s.wf(), placed(s, g, o), grid_of(s, o, h)
    ensures forall|a: int, i: int| 0 <= a < «D» ==> #[trigger] int_usize::tb(comp(h, a), i) == (i < s.sdepth() && int_usize::tb(comp(g, a), i))
{
    assert forall|a: int, i: int| 0 <= a < «D» implies #[trigger] int_usize::tb(comp(h, a), i) == (i < s.sdepth() && int_usize::tb(comp(g, a), i)) by {
        if 0 <= i < s.sdepth() { let l = s.sdepth() - 1 - i; assert(cbit(cell(s, l), axis(o, a)) == int_usize::tb(comp(g, a), s.sdepth() - 1 - l)); }
    }
}
/// two indices placed at the same position are the same
pub proof fn «PLACE»_unique<S: Storage, T: Storage>(s: S, t: T, o: «CELL»Ordering, g: Vector«D») requires placed(s, g, o), placed(t, g, o), s.sdepth() == t.sdepth() ensures same_cells(s, t, s.sdepth()) {
    axes(o);
    assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(t, l) by {
        assert forall|j: int| 0 <= j < «D» implies #[trigger] cbit(cell(s, l), j) == cbit(cell(t, l), j) by {
            let a = axis_of(o, j);
            assert(axis(o, a) == j);
            assert(cbit(cell(s, l), axis(o, a)) == int_usize::tb(comp(g, a), s.sdepth() - 1 - l));
            assert(cbit(cell(t, l), axis(o, a)) == int_usize::tb(comp(g, a), t.sdepth() - 1 - l));
        }
        cells_equal(s, l, t, l);
    }
}
// C06: index -> position -> index
pub proof fn c06_back_and_there<S: Storage, T: Storage>(s: S, o: «CELL»Ordering, g: Vector«D», t: T) requires s.wf(), s.sdepth() <= 64, grid_of(s, o, g), placed(t, g, o), t.sdepth() == s.sdepth() ensures same_cells(s, t, s.sdepth()) {
    axes(o);
    assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(t, l) by {
        assert forall|j: int| 0 <= j < «D» implies #[trigger] cbit(cell(s, l), j) == cbit(cell(t, l), j) by {
            let a = axis_of(o, j);
            assert(axis(o, a) == j);
            assert(cbit(cell(t, l), axis(o, a)) == int_usize::tb(comp(g, a), t.sdepth() - 1 - l));
            assert(int_usize::tb(comp(g, a), s.sdepth() - 1 - l) == grid_bit(s, o, a, s.sdepth() - 1 - l));
        }
        cells_equal(s, l, t, l);
    }
}
proof fn top_bv(v: usize, d: usize) by(bit_vector) requires d < 63, (v >> d) & 1 == 0, v >> ((d + 1) as usize) == 0 ensures v >> d == 0
{}
proof fn last_bv(v: usize) by(bit_vector) requires (v >> 63) & 1 == 0 ensures v >> 63 == 0
{}
proof fn below(v: usize, d: int) requires 0 <= d < 64, forall|i: int| d <= i ==> !#[trigger] int_usize::tb(v, i) ensures v >> (d as usize) == 0 decreases 64 - d {
    assert(!int_usize::tb(v, d));
    one_bv(v, d as usize);
    if d < 63 { below(v, d + 1); top_bv(v, d as usize); } else { last_bv(v); }
}
// C06: each coordinate is below 2^depth
pub proof fn c06_coordinates_below<S: Storage>(s: S, o: «CELL»Ordering, g: Vector«D», a: int) requires s.wf(), 0 <= s.sdepth() < 64, grid_of(s, o, g), 0 <= a < «D» ensures comp(g, a) >> (s.sdepth() as usize) == 0 {
    assert forall|i: int| s.sdepth() <= i implies !#[trigger] int_usize::tb(comp(g, a), i) by { assert(int_usize::tb(comp(g, a), i) == grid_bit(s, o, a, i)); }
    below(comp(g, a), s.sdepth());
}
// C07: a total order that agrees with equality
proof fn first_difference<S: Storage>(s: S, t: S, l: int) requires same_cells(s, t, l), 0 <= l <= s.sdepth(), l <= t.sdepth() ensures before(s, t) || same_index(s, t) || before(t, s) decreases s.sdepth() - l {
    if l < s.sdepth() && l < t.sdepth() && cell(s, l) == cell(t, l) { first_difference(s, t, l + 1); }
    else if l < s.sdepth() && l < t.sdepth() { assert(same_cells(t, s, l)); if cell(s, l) < cell(t, l) { assert(before_at(s, t, l)); } else { assert(before_at(t, s, l)); } }
    else if l < t.sdepth() { assert(before_at(s, t, l)); }
    else if l < s.sdepth() { assert(same_cells(t, s, l)); assert(before_at(t, s, l)); }
}
pub proof fn c07_total<S: Storage>(s: S, t: S) requires s.wf(), t.wf() ensures before(s, t) || same_index(s, t) || before(t, s) { s.lemma_wf(); t.lemma_wf(); first_difference(s, t, 0); }
pub proof fn c07_transitive<S: Storage>(s: S, t: S, u: S) requires before(s, t), before(t, u) ensures before(s, u) { order_transitive(s, t, u); }
pub proof fn c07_asymmetric<S: Storage>(s: S, t: S) requires before(s, t) ensures !before(t, s), !same_index(s, t) { order_asymmetric(s, t); }
pub proof fn c07_ancestor_first<S: Storage>(s: S, t: S) requires s.wf(), 0 <= s.sdepth() < t.sdepth(), same_cells(s, t, s.sdepth()) ensures before(s, t) { prefix_first(s, t); }
/// the derived order of fixed-depth storages (that of their bits) is the order of the cells
pub proof fn c07_fixed<B: FixedStorageType>(s: FixedDepthStorage«D»D<B>, t: FixedDepthStorage«D»D<B>) requires canon(s), canon(t) ensures s.bits.val() < t.bits.val() ==> before(s, t), s.bits.val() == t.bits.val() ==> same_index(s, t) {
    s.bits.lemma_fixed(); t.bits.lemma_fixed();
    let m = B::BITS as int / «D»;
    let lo = B::BITS - «D» * m;
    assert forall|i: int| #[trigger] s.bits.bit(i) == (lo <= i < lo + «D» * m && s.raw().bit(top(s) - «D» * m + i - lo)) by { s.bits.lemma_bit(i); assert(i < top(s) - «D» * s.sdepth() ==> !s.raw().bit(i)); }
    assert forall|i: int| #[trigger] t.bits.bit(i) == (lo <= i < lo + «D» * m && t.raw().bit(top(t) - «D» * m + i - lo)) by { t.bits.lemma_bit(i); assert(i < top(t) - «D» * t.sdepth() ==> !t.raw().bit(i)); }
    numbers_decide(s, t, s.bits, t.bits, m, lo);
}
// C08: canonical storages are equal (bit for bit, as the derived or written `eq` compares them) exactly when depth and cells are
pub proof fn c08_fixed<B: FixedStorageType>(s: FixedDepthStorage«D»D<B>, t: FixedDepthStorage«D»D<B>) requires canon(s), canon(t) ensures (s.bits == t.bits) == same_index(s, t) {
    s.bits.lemma_fixed(); t.bits.lemma_fixed();
    if same_index(s, t) { assert forall|i: int| top(s) <= i implies !#[trigger] s.raw().bit(i) && !t.raw().bit(i) by { s.bits.lemma_bit(i); t.bits.lemma_bit(i); } same_bits(s, t); assert forall|i: int| 0 <= i < B::BITS implies #[trigger] s.bits.bit(i) == t.bits.bit(i) by { assert(s.raw().bit(i) == t.raw().bit(i)); } s.bits.lemma_ext(t.bits); }
}
pub proof fn c08_static<B: FixedStorageType>(s: StaticStorage«D»D<B>, t: StaticStorage«D»D<B>) requires s.wf(), t.wf(), canon(s), canon(t) ensures (s.bits == t.bits && s.depth == t.depth) == same_index(s, t) {
    s.bits.lemma_fixed(); t.bits.lemma_fixed();
    if same_index(s, t) { assert forall|i: int| top(s) <= i implies !#[trigger] s.raw().bit(i) && !t.raw().bit(i) by { s.bits.lemma_bit(i); t.bits.lemma_bit(i); } same_bits(s, t); assert forall|i: int| 0 <= i < B::BITS implies #[trigger] s.bits.bit(i) == t.bits.bit(i) by { assert(s.raw().bit(i) == t.raw().bit(i)); } s.bits.lemma_ext(t.bits); }
}
pub proof fn c08_dynamic(s: DynamicStorage«D»D, t: DynamicStorage«D»D) requires s.wf(), t.wf(), canon(s), canon(t) ensures (s.bits@ == t.bits@ && s.depth == t.depth) == same_index(s, t) {
    if same_index(s, t) {
        same_bits(s, t);
        assert forall|k: int| 0 <= k < s.bits@.len() implies #[trigger] s.bits@[k] == t.bits@[k] by {
            assert forall|j: int| 0 <= j < 8 implies #[trigger] s.bits@[k].bit(j) == t.bits@[k].bit(j) by { assert(s.raw().bit(8 * k + j) == t.raw().bit(8 * k + j)); }
            int_u8::ext(s.bits@[k], t.bits@[k]);
        }
        assert(s.bits@ =~= t.bits@);
    } else if s.bits@ == t.bits@ && s.depth == t.depth {
        assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(t, l) by { }
    }
}
// C09, C10: the ancestor by the number of appended cells is the original index
pub proof fn c10_ancestor_of_descendant<S: VariableDepthStorage>(s: S, c: Seq<«CELL»>, t: S, u: S) requires s.wf(), is_descendant_storage(s, c, t), same_cells(u, t, u.sdepth()), u.sdepth() == t.sdepth() - c.len() ensures same_index(s, u) {
    assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(u, l) by { assert(cell(t, l) == cell(s, l)); assert(cell(u, l) == cell(t, l)); }
}
pub open spec fn is_descendant_storage<S: Storage>(s: S, c: Seq<«CELL»>, t: S) -> bool { t.sdepth() == s.sdepth() + c.len() && same_cells(t, s, s.sdepth()) && cells_at(t, s.sdepth(), c) }
pub proof fn c09_ancestors_compose<S: Storage>(s: S, t: S, u: S, v: S, g: int, h: int) requires g >= 0, h >= 0, same_cells(t, s, t.sdepth()), t.sdepth() == s.sdepth() - g, same_cells(u, t, u.sdepth()), u.sdepth() == t.sdepth() - h, same_cells(v, s, v.sdepth()), v.sdepth() == s.sdepth() - (g + h) ensures same_index(u, v) {
    assert forall|l: int| 0 <= l < u.sdepth() implies #[trigger] cell(u, l) == cell(v, l) by { assert(cell(u, l) == cell(t, l)); assert(cell(t, l) == cell(s, l)); assert(cell(v, l) == cell(s, l)); }
}
// C11: there and back
pub proof fn c11_round_trip<S: Storage, T: Storage>(s: S, t: T, u: S) requires carried(t, s), carried(u, t) ensures same_index(s, u) {
    assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(u, l) by { assert(cell(t, l) == cell(s, l)); assert(cell(u, l) == cell(t, l)); }
}
// C13: inverting twice
pub open spec fn reversed<S: Storage>(t: S, s: S) -> bool { t.sdepth() == s.sdepth() && forall|l: int| 0 <= l < s.sdepth() ==> #[trigger] cell(t, l) == cell(s, s.sdepth() - 1 - l) }
pub proof fn c13_involution<S: Storage>(s: S, t: S, u: S) requires reversed(t, s), reversed(u, t) ensures same_index(u, s) {
    assert forall|l: int| 0 <= l < u.sdepth() implies #[trigger] cell(u, l) == cell(s, l) by { assert(cell(t, s.sdepth() - 1 - l) == cell(s, s.sdepth() - 1 - (s.sdepth() - 1 - l))); }
}
// C18: cell numbers and orderings are bijections
pub proof fn c18_numbers() ensures forall|c: «CELL»| of_num(#[trigger] num(c) as int) == c, forall|n: int| 0 <= n < «CELLS» ==> num(#[trigger] of_num(n)) == n { num_facts(); }
pub proof fn c18_orderings(o: «CELL»Ordering) ensures forall|a: int| 0 <= a < «D» ==> 0 <= #[trigger] axis(o, a) < «D» && axis_of(o, axis(o, a)) == a, forall|j: int| 0 <= j < «D» ==> 0 <= #[trigger] axis_of(o, j) < «D» && axis(o, axis_of(o, j)) == j { axes(o); }
// C19: reading to the end
pub proof fn c19_collected<S: Storage>(s: S, c: Seq<«CELL»>) requires s.wf(), c.len() == s.sdepth(), forall|l: int| 0 <= l < c.len() ==> #[trigger] cell(s, l) == num(c[l]) ensures forall|l: int| 0 <= l < s.sdepth() ==> #[trigger] c[l] == of_num(cell(s, l)) { num_facts(); assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] c[l] == of_num(cell(s, l)) by { assert(cell(s, l) == num(c[l])); } }
