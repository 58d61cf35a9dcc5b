// ---- indices from grid positions -----------------------------------------------------------------------------------------
/// bit j of the number of the cell at level l
pub proof fn cell_bits<B: Bits>(b: B, n: int, l: int) ensures forall|j: int| 0 <= j < «D» ==> #[trigger] cbit(cnum(b, n, l), j) == b.bit(n - (l + 1) * «D» + j) { small(cnum(b, n, l) as usize); }
/// each level's cell combines the bits of that level (the most significant of the depth's bits first) as the ordering says
pub open spec fn placed<S: Storage>(s: S, g: Vector«D», o: «CELL»Ordering) -> bool {
    s.wf() && forall|l: int, a: int| 0 <= l < s.sdepth() && 0 <= a < «D» ==> #[trigger] cbit(cell(s, l), axis(o, a)) == int_usize::tb(comp(g, a), s.sdepth() - 1 - l)
}
/// the same, bit by bit
pub open spec fn placed_bits<S: Storage>(s: S, g: Vector«D», o: «CELL»Ordering) -> bool {
    forall|i: int| top(s) - «D» * s.sdepth() <= i < top(s) ==> #[trigger] s.raw().bit(i) == int_usize::tb(comp(g, axis_of(o, (i - (top(s) - «D» * s.sdepth())) % «D»)), (i - (top(s) - «D» * s.sdepth())) / «D»)
}
pub proof fn placed_by_bits<S: Storage>(s: S, g: Vector«D», o: «CELL»Ordering) requires s.wf(), placed_bits(s, g, o) ensures placed(s, g, o) {
    s.lemma_wf();
    axes(o);
    assert forall|l: int, a: int| 0 <= l < s.sdepth() && 0 <= a < «D» implies #[trigger] cbit(cell(s, l), axis(o, a)) == int_usize::tb(comp(g, a), s.sdepth() - 1 - l) by {
        cell_bits(s.raw(), top(s), l);
        let j = axis(o, a);
        let i = top(s) - (l + 1) * «D» + j;
        let d = s.sdepth();
        assert(i - (top(s) - «D» * d) == «D» * (d - 1 - l) + j);
        assert((«D» * (d - 1 - l) + j) % «D» == j && («D» * (d - 1 - l) + j) / «D» == d - 1 - l);
        assert(s.raw().bit(i) == int_usize::tb(comp(g, axis_of(o, j)), d - 1 - l));
    }
}
pub broadcast proof fn fits<T: Bits>(t: T, n: int) requires 0 <= n <= t.nbits(), t.nbits() >= 8, forall|i: int| n <= i ==> !#[trigger] t.bit(i) ensures #[trigger] t.source(n) { t.lemma_source(n); }
pub broadcast proof fn width<B: FixedStorageType>(n: int) ensures #[trigger] B::sized(n) == (n == B::BITS) { B::lemma_sized(n); }
pub broadcast proof fn whole<B: FixedStorageType>(b: B) ensures #[trigger] b.nbits() == B::BITS, 8 <= B::BITS <= 128 { b.lemma_fixed(); }
pub broadcast proof fn inside<B: Bits>(b: B, i: int) ensures #[trigger] b.bit(i) ==> 0 <= i < b.nbits() { b.lemma_bit(i); }
