// ---- names -----------------------------------------------------------------------------------------------------------------
/// the default ordering
pub open spec fn plain() -> «CELL»Ordering { «CELL»Ordering::«PLAIN» }
pub open spec fn is_coord<S: Storage>(s: S, a: int, v: usize) -> bool { forall|i: int| #[trigger] int_usize::tb(v, i) == grid_bit(s, plain(), a, i) }
/// the grid coordinate along axis a, in the default ordering
pub open spec fn coord<S: Storage>(s: S, a: int) -> usize { choose|v: usize| is_coord(s, a, v) }
pub proof fn coord_is<S: Storage>(s: S, a: int, v: usize) requires forall|i: int| #[trigger] int_usize::tb(v, i) == grid_bit(s, plain(), a, i) ensures coord(s, a) == v {
    assert(is_coord(s, a, v));
    let w = coord(s, a);
    assert(is_coord(s, a, w));
    assert forall|i: int| 0 <= i < 64 implies w.bit(i) == v.bit(i) by { assert(int_usize::tb(w, i) == grid_bit(s, plain(), a, i)); }
    int_usize::ext(w, v);
}
pub open spec fn digits<S: Storage>(s: S) -> Seq<char> { Seq::new(s.sdepth() as nat, |l: int| digit(cell(s, l))) }
//@gsub crate :: MortonIndexNaming~>MortonIndexNaming
impl<S: Storage> Named for MortonIndex«D»D<S> {
    open spec fn named(&self, n: MortonIndexNaming) -> bool { self.storage.wf() && (n is GridIndex ==> self.storage.sdepth() <= 64) }
    open spec fn name(&self, n: MortonIndexNaming) -> Seq<char> { match n {
        MortonIndexNaming::CellConcatenation => digits(self.storage),
        MortonIndexNaming::CellConcatenationWithRoot => seq!['r'] + digits(self.storage),
        MortonIndexNaming::GridIndex => dec(self.storage.sdepth() as nat)«COORDS»,
    } }
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|to_string
    //@ret r
    //@props C12
    //@loops 1
    //@at spec
        decreases if naming is CellConcatenation { 0int } else { 1 }
    //@at start
        proof { self.storage.lemma_wf(); num_facts(); }
    //@at loop 0 inv
        invariant self.storage.wf(), __v0@.len() == __k0, forall|l: int| 0 <= l < __k0 ==> #[trigger] __v0@[l] == digit(cell(self.storage, l)),
    //@at loop 0 start
        proof { self.storage.lemma_wf(); num_facts(); }
    //@at let grid_index
        proof { let g = grid_index; assert forall|a: int| 0 <= a < «D» implies #[trigger] coord(self.storage, a) == comp(g, a) by { assert forall|i: int| #[trigger] int_usize::tb(comp(g, a), i) == grid_bit(self.storage, plain(), a, i) by {} coord_is(self.storage, a, comp(g, a)); } }
    //@at end
        proof { assert(r@ =~= self.name(naming)); }
    //@end
}
pub proof fn c12_root_is_r<S: Storage>(i: MortonIndex«D»D<S>) requires i.storage.sdepth() == 0 ensures i.name(MortonIndexNaming::CellConcatenationWithRoot) == seq!['r'], i.name(MortonIndexNaming::CellConcatenation).len() == 0 { assert(i.name(MortonIndexNaming::CellConcatenationWithRoot) =~= seq!['r']); }
/// different indices have different names
pub proof fn c12_names_tell_apart<S: Storage>(i: MortonIndex«D»D<S>, j: MortonIndex«D»D<S>) requires i.storage.wf(), j.storage.wf(), i.name(MortonIndexNaming::CellConcatenation) == j.name(MortonIndexNaming::CellConcatenation) ensures same_index(i.storage, j.storage) {
    let (s, t) = (i.storage, j.storage);
    s.lemma_wf(); t.lemma_wf();
    assert(digits(s).len() == s.sdepth() && digits(t).len() == t.sdepth());
    assert forall|l: int| 0 <= l < s.sdepth() implies #[trigger] cell(s, l) == cell(t, l) by { assert(digits(s)[l] == digits(t)[l]); cnum_range(s.raw(), top(s), l); cnum_range(t.raw(), top(t), l); }
}
