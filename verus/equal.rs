// ---- comparing and hashing: what `derive` generates, or what is written in its place -------------------------------------
/// indices that store nothing but their cells
pub open spec fn proper<S: Storage>(s: S) -> bool { s.wf() && canon(s) }
pub trait Compared: Storage {
    fn eq(&self, other: &Self) -> (r: bool) requires proper(*self), proper(*other) ensures r == same_index(*self, *other);
    fn cmp(&self, other: &Self) -> (r: Ordering) requires proper(*self), proper(*other) ensures ordered(*self, *other, r);
    fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) requires proper(*self), proper(*other) ensures r.is_some(), ordered(*self, *other, r.unwrap());
}
impl<B: FixedStorageType> Compared for FixedDepthStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|derive(PartialEq)|eq
    //@ret r
    //@props C08
    //@at start
        proof { B::lemma_order(); c08_fixed(*self, *other); }
    //@end
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|derive(Ord)|cmp
    //@sub Ord :: cmp (& self . bits , & other . bits)~>self.bits.cmp(&other.bits)
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@at start
        proof { B::lemma_order(); c07_fixed(*self, *other); c07_fixed(*other, *self); }
    //@end
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|derive(PartialOrd)|partial_cmp
    //@sub PartialOrd :: partial_cmp (& self . bits , & other . bits)~>self.bits.partial_cmp(&other.bits)
    //@sub std :: cmp :: Ordering~>Ordering
    //@ret r
    //@props C07
    //@at start
        proof { B::lemma_order(); c07_fixed(*self, *other); c07_fixed(*other, *self); }
    //@end
}
impl<B: FixedStorageType> Compared for StaticStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|derive(PartialEq)|eq
    //@ret r
    //@props C08
    //@at start
        proof { B::lemma_order(); c08_static(*self, *other); }
    //@end
    fn cmp(&self, other: &Self) -> (r: Ordering) { StaticStorage«D»D::<B>::cmp(self, other) }
    fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { StaticStorage«D»D::<B>::partial_cmp(self, other) }
}
impl Compared for DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|derive(PartialEq)|eq
    //@sub self . bits == other . bits~>vx::vec_eq(&self.bits, &other.bits)
    //@ret r
    //@props C08
    //@at start
        proof { c08_dynamic(*self, *other); }
    //@end
    fn cmp(&self, other: &Self) -> (r: Ordering) { DynamicStorage«D»D::cmp(self, other) }
    fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { DynamicStorage«D»D::partial_cmp(self, other) }
}
impl<S: Compared> MortonIndex«D»D<S> {
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|derive(PartialEq)|eq
    //@sub self . storage == other . storage~>self.storage.eq(&other.storage)
    //@ret r
    //@props C08
    //@at spec
        requires proper(self.storage), proper(other.storage),
        ensures r == same_index(self.storage, other.storage),
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|derive(Ord)|cmp
    //@sub Ord :: cmp (& self . storage , & other . storage)~>self.storage.cmp(&other.storage)
    //@ret r
    //@props C07
    //@at spec
        requires proper(self.storage), proper(other.storage),
        ensures ordered(self.storage, other.storage, r),
    //@end
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|derive(PartialOrd)|partial_cmp
    //@sub PartialOrd :: partial_cmp (& self . storage , & other . storage)~>self.storage.partial_cmp(&other.storage)
    //@ret r
    //@props C07
    //@at spec
        requires proper(self.storage), proper(other.storage),
        ensures r.is_some(), ordered(self.storage, other.storage, r.unwrap()),
    //@end
}
/// the state of a hasher after a value was fed to it
pub trait Hash { spec fn after(&self, s: State) -> State; fn hash(&self, state: &mut State) ensures *final(state) == self.after(*old(state)); }
impl Hash for u8 { open spec fn after(&self, s: State) -> State { fed(s, *self) } fn hash(&self, state: &mut State) { vx::feed(self, state) } }
impl Hash for usize { open spec fn after(&self, s: State) -> State { fed(s, *self) } fn hash(&self, state: &mut State) { vx::feed(self, state) } }
impl Hash for Vec<u8> { open spec fn after(&self, s: State) -> State { fed(s, self@) } fn hash(&self, state: &mut State) { vx::feed_vec(self, state) } }
/// proper indices with the same cells leave a hasher in the same state
pub trait Hashed: Storage + Hash { proof fn lemma_hash(s: Self, t: Self, h: State) requires proper(s), proper(t), same_index(s, t) ensures s.after(h) == t.after(h); }
impl<B: FixedStorageType> Hash for FixedDepthStorage«D»D<B> {
    open spec fn after(&self, s: State) -> State { fed(s, self.bits) }
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|derive(Hash)|hash
    //@must Hash::hash(&self.bits,state);
    //@sub Hash :: hash (& self . bits , state)~>vx::feed(&self.bits, state)
    //@props C08
    //@end
}
impl<B: FixedStorageType> Hashed for FixedDepthStorage«D»D<B> { proof fn lemma_hash(s: Self, t: Self, h: State) { c08_fixed(s, t); } }
impl<B: FixedStorageType> Hash for StaticStorage«D»D<B> {
    open spec fn after(&self, s: State) -> State { self.depth.after(fed(s, self.bits)) }
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|derive(Hash)|hash
    //@must Hash::hash(&self.bits,state);Hash::hash(&self.depth,state);
    //@sub Hash :: hash (& self . bits , state)~>vx::feed(&self.bits, state)
    //@props C08
    //@end
}
impl<B: FixedStorageType> Hashed for StaticStorage«D»D<B> { proof fn lemma_hash(s: Self, t: Self, h: State) { c08_static(s, t); } }
impl Hash for DynamicStorage«D»D {
    open spec fn after(&self, s: State) -> State { self.depth.after(self.bits.after(s)) }
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|derive(Hash)|hash
    //@must Hash::hash(&self.bits,state);Hash::hash(&self.depth,state);
    //@props C08
    //@end
}
impl Hashed for DynamicStorage«D»D { proof fn lemma_hash(s: Self, t: Self, h: State) { c08_dynamic(s, t); } }
impl<S: Hashed> Hash for MortonIndex«D»D<S> {
    open spec fn after(&self, s: State) -> State { self.storage.after(s) }
    //@extract indices/morton_index_«D»d.rs MortonIndex«D»D<S>|derive(Hash)|hash
    //@must Hash::hash(&self.storage,state);
    //@props C08
    //@end
}
/// C08: equal indices hash equally
pub proof fn c08_hash<S: Hashed>(i: MortonIndex«D»D<S>, j: MortonIndex«D»D<S>, h: State) requires proper(i.storage), proper(j.storage), same_index(i.storage, j.storage) ensures i.after(h) == j.after(h) { S::lemma_hash(i.storage, j.storage, h); }
