// ---- Clone, with a specification ---------------------------------------------------------------------------------------
/// same depth and same bits
pub open spec fn alike<S: Storage>(s: S, t: S) -> bool { s.sdepth() == t.sdepth() && s.cap() == t.cap() && s.wf() == t.wf() && top(s) == top(t) && s.raw().nbits() == t.raw().nbits() && forall|i: int| #[trigger] s.raw().bit(i) == t.raw().bit(i) }
pub trait Clone: Storage { fn clone(&self) -> (r: Self) ensures alike(r, *self); }
impl<B: FixedStorageType> Clone for FixedDepthStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|derive(Clone)|clone
    //@ret r
    //@props C13 C09
    //@end
}
impl<B: FixedStorageType> Clone for StaticStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|derive(Clone)|clone
    //@ret r
    //@props C13 C09
    //@end
}
impl Clone for DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|derive(Clone)|clone
    //@sub . depth . clone ()~>. depth
    //@ret r
    //@props C13 C09
    //@end
}

// ---- iteration ---------------------------------------------------------------------------------------------------------
//@gsub < 'a , D : Dimension , S : Storage < D > >~><'a, S: Storage>
//@gsub PhantomData < D >~>PhantomData<u8>
//@gsub _phantom : Default :: default ()~>_phantom: PhantomData
//@gsub Option < Self :: Item >~>Option<«CELL»>
//@gsub CellIter < 'a , Dim«D»D ,~>CellIter<'a,
//@gsub pub storage : & S ,~>pub storage: &'a S,
//@struct indices/mod.rs CellIter
impl<'a, S: Storage> CellIter<'a, S> {
    pub closed spec fn of(&self) -> S { *self.storage }
    pub closed spec fn at(&self) -> int { self.index as int }
    //@extract indices/mod.rs CellIter<'a,D,S>|Iterator|next
    //@ret r
    //@props C19
    //@at spec
        requires old(self).of().wf(), old(self).at() <= old(self).of().sdepth(),
        ensures final(self).of() == old(self).of(), match r {
            None => old(self).at() == old(self).of().sdepth() && final(self).at() == old(self).at(),
            Some(c) => old(self).at() < old(self).of().sdepth() && num(c) == cell(old(self).of(), old(self).at()) && final(self).at() == old(self).at() + 1 },
    //@at start
        proof { self.storage.lemma_wf(); }
    //@end
}
/// `collect::<Vec<_>>()` of a cell iterator: `next` until it returns `None`
pub fn collect_cells<S: Storage>(mut it: CellIter<S>) -> (r: Vec<«CELL»>)
    requires it.of().wf(), it.at() == 0,
    ensures r@.len() == it.of().sdepth(), forall|l: int| 0 <= l < r@.len() ==> #[trigger] cell(it.of(), l) == num(r@[l]),
{
    let mut r: Vec<«CELL»> = Vec::new();
    let ghost s = it.of();
    proof { s.lemma_wf(); }
    loop
        invariant s == it.of(), s.wf(), it.at() == r@.len(), r@.len() <= s.sdepth(), (forall|l: int| 0 <= l < r@.len() ==> #[trigger] cell(s, l) == num(r@[l])), s.sdepth() <= usize::MAX,
        ensures r@.len() == s.sdepth(), forall|l: int| 0 <= l < r@.len() ==> #[trigger] cell(s, l) == num(r@[l]),
        decreases s.sdepth() - r@.len(),
    {
        match it.next() { None => break, Some(c) => r.push(c) }
    }
    r
}

// ---- Morton indices ----------------------------------------------------------------------------------------------------
//@gsub < S : Storage < Dim«D»D > >~><S: Storage>
//@struct indices/morton_index_«D»d.rs MortonIndex«D»D
impl<S: Storage + Clone> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|Clone|clone
    //@ret r
    //@props C13 C09
    //@at spec
        ensures alike(r.storage, self.storage),
    //@end
    //@extract morton.rs trait|MortonIndex|inverted
    //@ret r
    //@props C13 +C08
    //@loops 1
    //@at spec
        requires self.storage.wf(),
        ensures r.storage.wf(), r.storage.sdepth() == self.storage.sdepth(), forall|l: int| 0 <= l < self.storage.sdepth() ==> #[trigger] cell(r.storage, l) == cell(self.storage, self.storage.sdepth() - 1 - l),
            /*only C08*/ canon(self.storage) ==> canon(r.storage),
    //@at start
        proof { self.storage.lemma_wf(); }
    //@at loop 0 inv
        invariant self.storage.wf(), alike_shape(ret.storage, self.storage),
            forall|l: int| max_level - level <= l < max_level ==> #[trigger] cell(ret.storage, l) == cell(self.storage, max_level - 1 - l),
            /*only C08*/ forall|i: int| i < top(self.storage) - «D» * max_level ==> #[trigger] ret.storage.raw().bit(i) == self.storage.raw().bit(i),
    //@end
}
/// everything of `alike` except the bits
pub open spec fn alike_shape<S: Storage>(s: S, t: S) -> bool { s.sdepth() == t.sdepth() && s.cap() == t.cap() && s.wf() == t.wf() && top(s) == top(t) && s.raw().nbits() == t.raw().nbits() }
impl<S: Storage> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|depth
    //@ret r
    //@props C01 C02
    //@at spec
        requires self.storage.wf(),
        ensures r == self.storage.sdepth(),
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|get_cell_at_level
    //@panic level >= self.storage.sdepth()
    //@ret r
    //@props C01 C02
    //@at spec
        requires self.storage.wf(),
        ensures level < self.storage.sdepth(), num(r) == cell(self.storage, level as int),
    //@at start
        proof { self.storage.lemma_wf(); }
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|get_cell_at_level_unchecked
    //@ret r
    //@props C01 C02
    //@at spec
        requires self.storage.wf(), level < self.storage.cap(),
        ensures num(r) == cell(self.storage, level as int),
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|set_cell_at_level
    //@panic level >= self.storage.sdepth()
    //@props C01 C02 +C08
    //@at spec
        requires old(self).storage.wf(),
        ensures level < old(self).storage.sdepth(), written(final(self).storage, old(self).storage, level as int, num(cell) as int),
            /*only C08*/ canon(old(self).storage) ==> final(self).storage.wf() && canon(final(self).storage),
    //@at start
        proof { self.storage.lemma_wf(); }
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|MortonIndex|set_cell_at_level_unchecked
    //@props C01 C02 +C08
    //@at spec
        requires old(self).storage.wf(), level < old(self).storage.cap(),
        ensures written(final(self).storage, old(self).storage, level as int, num(cell) as int),
            /*only C08*/ canon(old(self).storage) && level < old(self).storage.sdepth() ==> final(self).storage.wf() && canon(final(self).storage),
    //@end
}
/// s is t with the number n at level l, and everything else as it was
pub open spec fn written<S: Storage>(s: S, t: S, l: int, n: int) -> bool {
    s.wf() && alike_shape(s, t) && (forall|m: int| 0 <= m < t.cap() ==> #[trigger] cell(s, m) == (if m == l { n } else { cell(t, m) })) && (forall|i: int| !(top(t) - (l + 1) * «D» <= i < top(t) - l * «D») ==> #[trigger] s.raw().bit(i) == t.raw().bit(i))
}
impl<S: VariableDepthStorage> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|VariableDepthMortonIndex|ancestor
    //@map option
    //@ret r
    //@props C09 +C08
    //@at spec
        requires self.storage.wf(),
        ensures is_ancestor(self.storage, generations@ as int, r),
            /*also C08*/ canon(self.storage) ==> tidy_index(r),
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|VariableDepthMortonIndex|descendant
    //@sub < Self :: Dimension as crate :: dimensions :: Dimension > :: Cell~>«CELL»
    //@map option
    //@ret r
    //@props C10 +C08
    //@at spec
        requires self.storage.wf(), reachable(self.storage.sdepth() + cells@.len()),
        ensures is_descendant(self.storage, cells@, r),
            /*also C08*/ canon(self.storage) ==> tidy_index(r),
    //@end
    //@extract morton.rs trait|VariableDepthMortonIndex|parent
    //@ret r
    //@props C09 +C08
    //@at spec
        requires self.storage.wf(),
        ensures is_ancestor(self.storage, 1, r),
            /*also C08*/ canon(self.storage) ==> tidy_index(r),
    //@end
    //@extract morton.rs trait|VariableDepthMortonIndex|child
    //@sub < Self :: Dimension as crate :: dimensions :: Dimension > :: Cell~>«CELL»
    //@ret r
    //@props C10 +C08
    //@at spec
        requires self.storage.wf(), reachable(self.storage.sdepth() + 1),
        ensures is_descendant(self.storage, seq![cell], r),
            /*also C08*/ canon(self.storage) ==> tidy_index(r),
    //@end
}
impl<S: VariableDepthStorage + Clone> MortonIndex«D»D<S> {
    //@extract morton.rs trait|VariableDepthMortonIndex|with_depth
    //@ret r
    //@props C09 +C08
    //@at spec
        requires self.storage.wf(),
        ensures match r { None => new_depth > self.storage.sdepth(), Some(s) => new_depth <= self.storage.sdepth() && s.storage.wf() && s.storage.sdepth() == new_depth && same_cells(s.storage, self.storage, new_depth as int) },
            /*also C08*/ canon(self.storage) ==> tidy_index(r),
    //@end
}
pub open spec fn tidy_index<S: Storage>(r: Option<MortonIndex«D»D<S>>) -> bool { match r { Some(t) => t.storage.wf() && canon(t.storage), None => true } }
pub open spec fn is_ancestor<S: Storage>(s: S, n: int, r: Option<MortonIndex«D»D<S>>) -> bool {
    match r { None => n > s.sdepth(), Some(t) => n <= s.sdepth() && t.storage.wf() && t.storage.sdepth() == s.sdepth() - n && same_cells(t.storage, s, s.sdepth() - n) }
}
pub open spec fn is_descendant<S: Storage>(s: S, cells: Seq<«CELL»>, r: Option<MortonIndex«D»D<S>>) -> bool {
    let fits = S::StorageType::max_spec().is_some() ==> s.sdepth() + cells.len() <= S::StorageType::max_spec().unwrap();
    match r { None => !fits, Some(t) => fits && t.storage.wf() && t.storage.sdepth() == s.sdepth() + cells.len() && same_cells(t.storage, s, s.sdepth()) && cells_at(t.storage, s.sdepth(), cells) }
}
// ---- Default, construction, iteration, conversion ------------------------------------------------------------------------
impl<S: Storage + Default> Default for MortonIndex«D»D<S> {
    open spec fn is_default(&self) -> bool { self.storage.is_default() }
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|derive(Default)|default
    //@ret r
    //@props C03
    //@end
}
impl<S: TryFromCells> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|TryFrom<&'a[«CELL»]>|try_from
    //@name try_from_slice
    //@map result
    //@sub S :: try_from~>S::try_from_slice
    //@ret r
    //@props C03 +C07 +C08
    //@at spec
        requires reachable(value@.len() as int),
        ensures from_cells(value@, stored(r)),
            /*only C07 C08*/ tidy(stored(r)),
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|TryFrom<[«CELL»;N]>|try_from
    //@name try_from_array
    //@generics <const N: usize>
    //@map result
    //@sub S :: try_from~>S::try_from_array
    //@ret r
    //@props C03 +C07 +C08
    //@at spec
        requires reachable(N as int),
        ensures from_cells(value@, stored(r)),
            /*only C07 C08*/ tidy(stored(r)),
    //@end
}
pub open spec fn stored<S: Storage>(r: Result<MortonIndex«D»D<S>, Error>) -> Result<S, Error> { match r { Ok(i) => Ok(i.storage), Err(e) => Err(e) } }
pub trait IntoCells: Storage { fn into_iter<'a>(&'a self) -> (r: CellIter<'a, Self>) ensures r.of() == *self, r.at() == 0; }
//@gsub into_iter (self)~>into_iter(&self)
//@gsub Self :: IntoIter)~>CellIter<Self>)
impl<B: FixedStorageType> IntoCells for FixedDepthStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs &'aFixedDepthStorage«D»D<B>|IntoIterator|into_iter
    //@ret r
    //@props C19
    //@end
}
impl<B: FixedStorageType> IntoCells for StaticStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs &'aStaticStorage«D»D<B>|IntoIterator|into_iter
    //@ret r
    //@props C19
    //@end
}
impl IntoCells for DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs &'aDynamicStorage«D»D|IntoIterator|into_iter
    //@ret r
    //@props C19
    //@end
}
impl<S: IntoCells> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|-|cells
    //@sub < & S as IntoIterator > :: IntoIter~>CellIter<S>
    //@ret r
    //@props C19
    //@at spec
        ensures r.of() == self.storage, r.at() == 0,
    //@end
}
impl<B: FixedStorageType> MortonIndex«D»D<StaticStorage«D»D<B>> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<StaticStorage«D»D<B>>|-|zeroed
    //@ret r
    //@props C03 +C08
    //@at spec
        ensures match r { None => depth > B::BITS / «D», Some(s) => depth <= B::BITS / «D» && s.storage.wf() && s.storage.depth == depth && zero_cells(s.storage, 0, depth as int) },
            /*only C08*/ tidy_index(r),
    //@at start
        proof { B::lemma_zero(); }
    //@end
}
impl MortonIndex«D»D<DynamicStorage«D»D> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<DynamicStorage«D»D>|-|zeroed
    //@ret r
    //@props C03 +C08
    //@at spec
        requires reachable(depth as int),
        ensures r.storage.wf(), r.storage.depth == depth, zero_cells(r.storage, 0, depth as int),
            /*only C08*/ r.storage.wf() && canon(r.storage),
    //@end
}
//@gsub :: < Dim«D»D , B >~>::<B>
/// the same cells at the same depth
pub open spec fn carried<S: Storage, T: Storage>(s: S, t: T) -> bool { s.wf() && s.sdepth() == t.sdepth() && same_cells(s, t, t.sdepth()) }
impl<B: FixedStorageType> MortonIndex«D»D<StaticStorage«D»D<B>> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<StaticStorage«D»D<B>>|From<MortonIndex«D»D<FixedDepthStorage«D»D<B>>>|from
    //@name from_fixed
    //@ret r
    //@props C11 +C08
    //@at spec
        ensures carried(r.storage, fixed_index.storage),
            /*only C08*/ canon(fixed_index.storage) ==> r.storage.wf() && canon(r.storage),
    //@at start
        proof { fixed_index.storage.bits.lemma_fixed(); }
    //@at end
        proof { if canon(fixed_index.storage) { let s = fixed_index.storage;
            assert(top(r.storage) - «D» * r.storage.sdepth() == top(s) - «D» * s.sdepth());
            assert forall|i: int| i < top(r.storage) - «D» * r.storage.sdepth() implies !#[trigger] r.storage.raw().bit(i) by { assert(!s.raw().bit(i)); assert(r.storage.raw().bit(i) == s.raw().bit(i)); }
        } }
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<StaticStorage«D»D<B>>|TryFrom<MortonIndex«D»D<DynamicStorage«D»D>>|try_from
    //@name try_from_dynamic
    //@ret r
    //@props C11 +C08
    //@loops 1
    //@sub Self :: Error~>Error
    //@at spec
        requires value.storage.wf(),
        ensures match r { Ok(s) => value.storage.depth <= B::BITS / «D» && carried(s.storage, value.storage), Err(e) => value.storage.depth > B::BITS / «D» && e == (Error::DepthLimitedExceeded { max_depth: (B::BITS / «D») as usize }) },
            /*only C08*/ tidy(stored(r)),
    //@at start
        proof { B::lemma_zero(); }
    //@at loop 0 before
        proof { ret.storage.bits.lemma_fixed(); }
        let ghost d0 = ret.storage.depth;
    //@at loop 0 inv
        invariant value.storage.wf(), value.storage.depth <= B::BITS / «D» <= 64, ret.storage.depth == d0, forall|l: int| 0 <= l < level ==> cell(ret.storage, l) == #[trigger] cell(value.storage, l),
            /*only C08*/ forall|i: int| i < B::BITS - «D» * level ==> !#[trigger] ret.storage.bits.bit(i),
    //@end
}
impl<B: FixedStorageType> MortonIndex«D»D<FixedDepthStorage«D»D<B>> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<FixedDepthStorage«D»D<B>>|From<MortonIndex«D»D<StaticStorage«D»D<B>>>|from
    //@name from_static
    //@ret r
    //@props C11 +C07 +C08
    //@at spec
        requires static_index.storage.wf(),
        ensures r.storage.wf(), same_cells(r.storage, static_index.storage, static_index.storage.depth as int), canon(static_index.storage) ==> zero_cells(r.storage, static_index.storage.depth as int, r.storage.sdepth()),
            /*only C07 C08*/ canon(static_index.storage) ==> r.storage.wf() && canon(r.storage),
    //@at start
        proof { static_index.storage.bits.lemma_fixed(); }
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<FixedDepthStorage«D»D<B>>|TryFrom<MortonIndex«D»D<DynamicStorage«D»D>>|try_from
    //@name try_from_dynamic
    //@ret r
    //@props C11 +C07 +C08
    //@loops 1
    //@at spec
        requires value.storage.wf(),
        ensures match r { Ok(s) => value.storage.depth <= B::BITS / «D» && s.storage.wf() && same_cells(s.storage, value.storage, value.storage.depth as int) && zero_cells(s.storage, value.storage.depth as int, s.storage.sdepth()), Err(e) => value.storage.depth > B::BITS / «D» && e == (Error::DepthLimitedExceeded { max_depth: (B::BITS / «D») as usize }) },
            /*only C07 C08*/ tidy(stored(r)),
    //@at start
        proof { B::lemma_zero(); }
    //@at loop 0 before
        proof { ret.storage.bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant value.storage.wf(), value.storage.depth <= B::BITS / «D» <= 64, forall|l: int| 0 <= l < level ==> cell(ret.storage, l) == #[trigger] cell(value.storage, l),
            /*also C07 C08*/ forall|i: int| i < B::BITS - «D» * level ==> !#[trigger] ret.storage.bits.bit(i),
    //@end
}
impl MortonIndex«D»D<DynamicStorage«D»D> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<DynamicStorage«D»D>|From<MortonIndex«D»D<FixedDepthStorage«D»D<B>>>|from
    //@name from_fixed
    //@generics <B: FixedStorageType>
    //@ret r
    //@props C11 +C08
    //@at spec
        ensures carried(r.storage, fixed_index.storage),
            /*only C08*/ canon(fixed_index.storage) ==> r.storage.wf() && canon(r.storage),
    //@at start
        proof { fixed_index.storage.bits.lemma_fixed(); }
    //@at end
        proof { if canon(fixed_index.storage) { let s = fixed_index.storage;
            assert(top(r.storage) - «D» * r.storage.sdepth() == top(s) - «D» * s.sdepth());
            assert forall|i: int| i < top(r.storage) - «D» * r.storage.sdepth() implies !#[trigger] r.storage.raw().bit(i) by { assert(!s.raw().bit(i)); assert(r.storage.raw().bit(i) == s.raw().bit(i)); }
        } }
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<DynamicStorage«D»D>|From<MortonIndex«D»D<StaticStorage«D»D<B>>>|from
    //@name from_static
    //@generics <B: FixedStorageType>
    //@ret r
    //@props C11 +C08
    //@at spec
        requires fixed_index.storage.wf(),
        ensures carried(r.storage, fixed_index.storage),
            /*only C08*/ r.storage.wf() && canon(r.storage),
    //@at start
        proof { fixed_index.storage.bits.lemma_fixed(); }
    //@end
}
