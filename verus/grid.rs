/// axes and bits of cell numbers correspond one to one
pub proof fn axes(o: «CELL»Ordering) ensures forall|a: int| 0 <= a < «D» ==> 0 <= #[trigger] axis(o, a) < «D» && axis_of(o, axis(o, a)) == a, forall|j: int| 0 <= j < «D» ==> 0 <= #[trigger] axis_of(o, j) < «D» && axis(o, axis_of(o, j)) == j {}
pub broadcast proof fn low_bit(v: usize) ensures #[trigger] (v & 1) == b2i(int_usize::tb(v, 0), 1) { low_bv(v); }
proof fn low_bv(v: usize) by(bit_vector) ensures v & 1 == (v >> 0) & 1, v & 1 == 0 || v & 1 == 1
{}
impl IntoSpecImpl<usize> for &«CELL» { open spec fn obeys_into_spec() -> bool { true } open spec fn into_spec(self) -> usize { num(*self) } }
impl Into<usize> for &«CELL» {
//@extract dimensions/dim_«D»d.rs &«CELL»|Into<usize>|into
//@props C18
//@ret r
//@end
}
impl «CELL» {
    //@extract dimensions/dim_«D»d.rs «CELL»|-|index
    //@ret r
    //@props C18 C12
    //@at spec
        ensures r == num(*self),
    //@end
}
impl «CELL»Ordering {
    //@extract dimensions/dim_«D»d.rs «CELL»Ordering|-|to_index
    //@ret r
    //@props C18
    //@at spec
        ensures forall|a: int| 0 <= a < «D» ==> #[trigger] comp(r, a) == b2i(cbit(num(«VARONE») as int, axis(*self, a)), 1),
    //@at start
        broadcast use {low_bit, int_usize::b_shr};
    //@end
}
/// bit i of component a: that of the cell i levels above the lowest
pub open spec fn grid_bit<S: Storage>(s: S, o: «CELL»Ordering, a: int, i: int) -> bool { 0 <= i < s.sdepth() && cbit(cell(s, s.sdepth() - 1 - i), axis(o, a)) }
impl<S: Storage> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|to_grid_index
    //@ret r
    //@props C06 C12
    //@loops 1
    //@at spec
        requires self.storage.wf(), self.storage.sdepth() <= 64,
        ensures forall|a: int, i: int| 0 <= a < «D» ==> #[trigger] int_usize::tb(comp(r, a), i) == grid_bit(self.storage, ordering, a, i),
    //@at start
        broadcast use int_usize::b_zero;
    //@at loop 0 inv
        invariant self.storage.wf(), __hi0 <= 64, forall|a: int, i: int| 0 <= a < «D» ==> #[trigger] int_usize::tb(comp(index, a), i) == (i >= __hi0 - level && grid_bit(self.storage, ordering, a, i)),
    //@at loop 0 start
        broadcast use {int_usize::b_or, int_usize::b_shl};
        proof { self.storage.lemma_wf(); unit(); }
        let ghost before = index;
    //@at loop 0 end
        proof {
            assert forall|a: int, i: int| 0 <= a < «D» implies #[trigger] int_usize::tb(comp(index, a), i) == (i >= __hi0 - level - 1 && grid_bit(self.storage, ordering, a, i)) by {
                assert(int_usize::tb(comp(before, a), i) == (i >= __hi0 - level && grid_bit(self.storage, ordering, a, i)));
                let q = comp(«VARONE»_index, a);
                assert(int_usize::tb(q, i - (__hi0 - level - 1)) == (i == __hi0 - level - 1 && q == 1));
            }
        }
    //@end
}
proof fn unit() ensures forall|v: usize, i: int| v == 0 || v == 1 ==> #[trigger] int_usize::tb(v, i) == (i == 0 && v == 1) {
    broadcast use int_usize::b_zero;
    assert forall|v: usize, i: int| v == 0 || v == 1 implies #[trigger] int_usize::tb(v, i) == (i == 0 && v == 1) by { if v == 1 && 0 <= i < 64 { unit_bv(i as usize); } }
}
proof fn unit_bv(i: usize) by(bit_vector) requires i < 64 ensures ((1usize >> i) & 1 == 1) == (i == 0)
{}
