// ---- constructors and derived code -----------------------------------------------------------------------------------
/// the number of levels that a slice of cells asks for is within the machine's reach
pub open spec fn reachable(n: int) -> bool { n * «D» <= max_bit() - 8 }
/// the cells of `c` at the levels from `from` on
pub open spec fn cells_at<S: Storage>(s: S, from: int, c: Seq<«CELL»>) -> bool { forall|l: int| 0 <= l < c.len() ==> cell(s, from + l) == num(#[trigger] c[l]) }
/// the first n levels are those of t
pub open spec fn same_cells<S: Storage, T: Storage>(s: S, t: T, n: int) -> bool { forall|l: int| 0 <= l < n ==> #[trigger] cell(s, l) == cell(t, l) }
pub open spec fn zero_cells<S: Storage>(s: S, from: int, to: int) -> bool { forall|l: int| from <= l < to ==> #[trigger] cell(s, l) == 0 }

/// the cells `c` from the top, followed by cells of number zero where the depth is fixed
pub open spec fn from_cells<S: Storage>(c: Seq<«CELL»>, r: Result<S, Error>) -> bool {
    let fits = S::StorageType::max_spec().is_some() ==> c.len() <= S::StorageType::max_spec().unwrap();
    match r {
        Ok(s) => fits && s.wf() && c.len() <= s.sdepth() && (S::fixed() || c.len() == s.sdepth()) && cells_at(s, 0, c) && zero_cells(s, c.len() as int, s.sdepth()),
        Err(e) => !fits && e == (Error::DepthLimitedExceeded { max_depth: S::StorageType::max_spec().unwrap() }) }
}
/// nothing but the cells is stored
pub open spec fn tidy<S: Storage>(r: Result<S, Error>) -> bool { match r { Ok(s) => s.wf() && canon(s), Err(e) => true } }
pub open spec fn tidy_some<S: Storage>(r: Option<S>) -> bool { match r { Some(s) => s.wf() && canon(s), None => true } }
/// `TryFrom<&[«CELL»]>` and `TryFrom<[«CELL»; N]>`
pub trait TryFromCells: Storage {
    fn try_from_slice(c: &[«CELL»]) -> (r: Result<Self, Error>) requires reachable(c@.len() as int) ensures from_cells(c@, r),
        /*only C07 C08*/ tidy(r);
    fn try_from_array<const N: usize>(c: [«CELL»; N]) -> (r: Result<Self, Error>) requires reachable(N as int) ensures from_cells(c@, r),
        /*only C07 C08*/ tidy(r);
}

//@struct indices/morton_index_«D»d.rs FixedDepthStorage«D»D #[derive(Clone, Copy)]
impl<B: FixedStorageType> Default for FixedDepthStorage«D»D<B> {
    open spec fn is_default(&self) -> bool { self.bits.is_default() }
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|derive(Default)|default
    //@ret r
    //@props C03
    //@end
}
impl<B: FixedStorageType> Storage for FixedDepthStorage«D»D<B> {
    type StorageType = FixedDepthStorage<B>;
    type Bits = B;
    open spec fn raw(&self) -> B { self.bits }
    open spec fn fixed() -> bool { true }
    open spec fn sdepth(&self) -> int { B::BITS as int / «D» }
    open spec fn cap(&self) -> int { B::BITS as int / «D» }
    open spec fn wf(&self) -> bool { true }
    proof fn lemma_wf(&self) { self.bits.lemma_fixed(); }
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|Storage<Dim«D»D>|bits
    //@ret r
    //@props C01
    //@end
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|Storage<Dim«D»D>|bits_mut
    //@ret r
    //@props C01
    //@end
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|Storage<Dim«D»D>|depth
    //@ret r
    //@props C01
    //@end
}
impl<B: FixedStorageType> TryFromCells for FixedDepthStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|TryFrom<&'a[«CELL»]>|try_from
    //@name try_from_slice
    //@ret r
    //@props C03 +C07 +C08
    //@loops 1
    //@at start
        proof { B::lemma_zero(); }
    //@at loop 0 before
        proof { ret.bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant «VAR»@.len() <= B::BITS / «D», forall|l: int| 0 <= l < level ==> cell(ret, l) == num(#[trigger] «VAR»@[l]),
            /*also C07 C08*/ forall|i: int| i < B::BITS - «D» * level ==> !#[trigger] ret.bits.bit(i),
    //@end
    //@extract indices/morton_index_«D»d.rs FixedDepthStorage«D»D<B>|TryFrom<[«CELL»;N]>|try_from
    //@name try_from_array
    //@generics <const N: usize>
    //@ret r
    //@props C03 +C07 +C08
    //@loops 1
    //@at start
        proof { B::lemma_zero(); }
    //@at loop 0 before
        proof { ret.bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant «VAR»@.len() == N, N <= B::BITS / «D», forall|l: int| 0 <= l < level ==> cell(ret, l) == num(#[trigger] «VAR»@[l]),
            /*also C07 C08*/ forall|i: int| i < B::BITS - «D» * level ==> !#[trigger] ret.bits.bit(i),
    //@end
}

//@struct indices/morton_index_«D»d.rs StaticStorage«D»D #[derive(Clone, Copy)]
impl<B: FixedStorageType> Default for StaticStorage«D»D<B> {
    open spec fn is_default(&self) -> bool { self.bits.is_default() && self.depth == 0 }
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|derive(Default)|default
    //@ret r
    //@props C03
    //@end
}
impl<B: FixedStorageType> Storage for StaticStorage«D»D<B> {
    type StorageType = StaticStorage<B>;
    type Bits = B;
    open spec fn raw(&self) -> B { self.bits }
    open spec fn fixed() -> bool { false }
    open spec fn sdepth(&self) -> int { self.depth as int }
    open spec fn cap(&self) -> int { B::BITS as int / «D» }
    open spec fn wf(&self) -> bool { self.depth <= B::BITS / «D» }
    proof fn lemma_wf(&self) { self.bits.lemma_fixed(); }
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|Storage<Dim«D»D>|bits
    //@ret r
    //@props C01
    //@end
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|Storage<Dim«D»D>|bits_mut
    //@ret r
    //@props C01
    //@end
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|Storage<Dim«D»D>|depth
    //@ret r
    //@props C01
    //@end
}
impl<B: FixedStorageType> TryFromCells for StaticStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|TryFrom<&'a[«CELL»]>|try_from
    //@name try_from_slice
    //@ret r
    //@props C03 +C08
    //@loops 1
    //@at start
        proof { B::lemma_zero(); }
    //@at loop 0 before
        proof { ret.bits.lemma_fixed(); }
        let ghost d0 = ret.depth;
    //@at loop 0 inv
        invariant «VAR»@.len() <= B::BITS / «D» <= 64, ret.depth == d0, forall|l: int| 0 <= l < level ==> cell(ret, l) == num(#[trigger] «VAR»@[l]),
            /*also C07 C08*/ forall|i: int| i < B::BITS - «D» * level ==> !#[trigger] ret.bits.bit(i),
    //@end
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|TryFrom<[«CELL»;N]>|try_from
    //@name try_from_array
    //@generics <const N: usize>
    //@ret r
    //@props C03 +C08
    //@loops 1
    //@at start
        proof { B::lemma_zero(); }
    //@at loop 0 before
        proof { ret.bits.lemma_fixed(); }
        let ghost d0 = ret.depth;
    //@at loop 0 inv
        invariant «VAR»@.len() == N, N <= B::BITS / «D» <= 64, ret.depth == d0, forall|l: int| 0 <= l < level ==> cell(ret, l) == num(#[trigger] «VAR»@[l]),
            /*also C07 C08*/ forall|i: int| i < B::BITS - «D» * level ==> !#[trigger] ret.bits.bit(i),
    //@end
}

//@struct indices/morton_index_«D»d.rs DynamicStorage«D»D
impl Default for DynamicStorage«D»D {
    open spec fn is_default(&self) -> bool { self.bits@.len() == 0 && self.depth == 0 }
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|derive(Default)|default
    //@ret r
    //@props C03
    //@end
}
impl Storage for DynamicStorage«D»D {
    type StorageType = DynamicStorage;
    type Bits = Vec<u8>;
    open spec fn raw(&self) -> Vec<u8> { self.bits }
    open spec fn fixed() -> bool { false }
    open spec fn sdepth(&self) -> int { self.depth as int }
    open spec fn cap(&self) -> int { self.depth as int }
    open spec fn wf(&self) -> bool { self.bits@.len() == (self.depth * «D» + 7) / 8 && self.depth * «D» <= max_bit() - 8 }
    proof fn lemma_wf(&self) { }
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|Storage<Dim«D»D>|bits
    //@ret r
    //@props C02
    //@end
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|Storage<Dim«D»D>|bits_mut
    //@ret r
    //@props C02
    //@end
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|Storage<Dim«D»D>|depth
    //@ret r
    //@props C02
    //@end
}
impl DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|-|zeroed
    //@ret r
    //@props C03 +C08
    //@at spec
        requires reachable(depth as int),
        ensures r.wf(), r.depth == depth, zero_cells(r, 0, depth as int),
            /*only C08*/ r.wf() && canon(r),
            /*also C08*/ forall|i: int| !#[trigger] r.bits.bit(i),
    //@at start
        broadcast use int_u8::b_zero;
    //@end
}
impl TryFromCells for DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|TryFrom<&'a[«CELL»]>|try_from
    //@name try_from_slice
    //@ret r
    //@props C03 +C08
    //@loops 1
    //@at start
        broadcast use int_u8::b_zero;
    //@at loop 0 inv
        invariant
            /*also C08*/ storage.wf(),
            storage.depth == «VAR»@.len(), forall|l: int| 0 <= l < level ==> cell(storage, l) == num(#[trigger] «VAR»@[l]),
            /*only C08*/ forall|i: int| i < top(storage) - «D» * level ==> !#[trigger] storage.bits.bit(i),
    //@end
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|TryFrom<[«CELL»;N]>|try_from
    //@name try_from_array
    //@generics <const N: usize>
    //@ret r
    //@props C03 +C08
    //@loops 1
    //@at start
        broadcast use int_u8::b_zero;
    //@at loop 0 inv
        invariant «VAR»@.len() == N,
            /*also C08*/ storage.wf(),
            storage.depth == N, forall|l: int| 0 <= l < level ==> cell(storage, l) == num(#[trigger] «VAR»@[l]),
            /*only C08*/ forall|i: int| i < top(storage) - «D» * level ==> !#[trigger] storage.bits.bit(i),
    //@end
}

// ---- ancestors and descendants ----------------------------------------------------------------------------------------
pub trait VariableDepthStorage: Storage {
    fn ancestor(&self, generations: NonZeroUsize) -> (r: Option<Self>)
        requires self.wf(),
        ensures match r { None => generations@ > self.sdepth(), Some(s) => generations@ <= self.sdepth() && s.wf() && s.sdepth() == self.sdepth() - generations@ && same_cells(s, *self, s.sdepth()) },
            /*also C08*/ canon(*self) ==> tidy_some(r);
    fn descendant(&self, cells: &[«CELL»]) -> (r: Option<Self>)
        requires self.wf(), reachable(self.sdepth() + cells@.len()),
        ensures match r {
            None => Self::StorageType::max_spec().is_some() && self.sdepth() + cells@.len() > Self::StorageType::max_spec().unwrap(),
            Some(s) => (Self::StorageType::max_spec().is_some() ==> self.sdepth() + cells@.len() <= Self::StorageType::max_spec().unwrap()) && s.wf() && s.sdepth() == self.sdepth() + cells@.len() && same_cells(s, *self, self.sdepth()) && cells_at(s, self.sdepth(), cells@) },
            /*also C08*/ canon(*self) ==> tidy_some(r);
}
impl<B: FixedStorageType> VariableDepthStorage for StaticStorage«D»D<B> {
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|VariableDepthStorage<Dim«D»D>|ancestor
    //@ret r
    //@props C09 +C08
    //@loops 1
    //@at start
        proof { self.bits.lemma_fixed(); }
    //@at loop 0 before
        let ghost d0 = ret.depth;
    //@at loop 0 start
        proof { zero_cell(); }
    //@at loop 0 inv
        invariant new_depth <= self.depth, self.wf(), ret.depth == d0,
            /*also C08*/ forall|i: int| #[trigger] ret.bits.bit(i) == (if B::BITS - «D» * level <= i < B::BITS - «D» * new_depth { false } else { self.bits.bit(i) }),
    //@end
    //@extract indices/morton_index_«D»d.rs StaticStorage«D»D<B>|VariableDepthStorage<Dim«D»D>|descendant
    //@ret r
    //@props C10 +C08
    //@loops 1
    //@at start
        proof { self.bits.lemma_fixed(); }
    //@at loop 0 before
        let ghost d0 = ret.depth;
    //@at loop 0 inv
        invariant self.wf(), self.depth + cells@.len() <= B::BITS / «D», ret.depth == d0,
            forall|l: int| 0 <= l < offset ==> cell(ret, self.depth + l) == num(#[trigger] cells@[l]),
            /*also C08*/ forall|i: int| !(B::BITS - «D» * (self.depth + offset) <= i < B::BITS - «D» * self.depth) ==> #[trigger] ret.bits.bit(i) == self.bits.bit(i),
    //@end
}
proof fn mask_bv(k: usize, j: u8) by(bit_vector) requires k < 8, j < 8 ensures (1u8 << k) >= 1, ((!sub((1u8 << k), 1) >> j) & 1 == 1) == (k <= j)
{}
/// a byte whose k lowest bits are zero and whose other bits are one
broadcast proof fn mask(k: usize) requires k < 8 ensures #[trigger] (1u8 << k) >= 1, forall|j: int| #[trigger] int_u8::tb(!(((1u8 << k) - 1) as u8), j) == (k <= j < 8)
{
    mask_bv(k, 0);
    assert forall|j: int| #[trigger] int_u8::tb(!(((1u8 << k) - 1) as u8), j) == (k <= j < 8) by { if 0 <= j < 8 { mask_bv(k, j as u8); } }
}
proof fn zero_cell() ensures num(«CELL»::Zero) == 0, forall|j: int| !#[trigger] cbit(0, j) { broadcast use int_usize::b_zero; }
/// bits of a byte string with zero bytes put in front
pub open spec fn repeated(r: Seq<u8>, n: int, v: Seq<u8>) -> bool { r == Seq::new(n as nat, |i: int| 0u8) + v }
pub broadcast proof fn chained_bits(r: Vec<u8>, n: int, v: Seq<u8>) requires #[trigger] repeated(r@, n, v), n >= 0 ensures forall|i: int| #[trigger] r.bit(i) == vb(v, i - 8 * n) { broadcast use int_u8::b_zero; }
/// s consists of the topmost bits of t, as many as its depth asks for
proof fn prefix(s: DynamicStorage«D»D, t: DynamicStorage«D»D)
    requires s.wf(), t.wf(), s.depth <= t.depth,
        forall|k: int| 0 < k < s.bits@.len() ==> #[trigger] s.bits@[k] == t.bits@[k + (t.bits@.len() - s.bits@.len())],
        s.bits@.len() > 0 ==> forall|j: int| #[trigger] int_u8::tb(s.bits@[0], j) == (top(s) - «D» * s.depth <= j && int_u8::tb(t.bits@[t.bits@.len() - s.bits@.len()], j)),
    ensures same_cells(s, t, s.depth as int), canon(s),
{
    let n = t.bits@.len() - s.bits@.len();
    assert(0 <= top(s) - «D» * s.depth < 8);
    assert forall|i: int| #[trigger] vb(s.bits@, i) == (top(s) - «D» * s.depth <= i && vb(t.bits@, i + 8 * n)) by {
        if 8 <= i < 8 * s.bits@.len() { assert(s.bits@[i / 8] == t.bits@[i / 8 + n]); }
    }
}
impl VariableDepthStorage for DynamicStorage«D»D {
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|VariableDepthStorage<Dim«D»D>|ancestor
    //@ret r
    //@props C09 +C08
    //@at start
        broadcast use {int_u8::b_and, mask};
    //@at end
        proof { let s = r.unwrap();
            /*also C08*/ assert(s.wf());
            /*also C08*/ prefix(s, *self); }
    //@end
    //@extract indices/morton_index_«D»d.rs DynamicStorage«D»D|VariableDepthStorage<Dim«D»D>|descendant
    //@ret r
    //@props C10 +C08
    //@loops 1
    //@at start
        hide(vb);
        broadcast use {int_u8::b_zero, chained_bits};
    //@at loop 0 before
        proof { assert(repeated(ret.bits@, bytes_to_add as int, self.bits@)); }
    //@at loop 0 after
        proof { if canon(*self) { assert forall|i: int| i < top(ret) - «D» * ret.sdepth() implies !#[trigger] ret.raw().bit(i) by {
            /*also C08*/ assert(ret.bits.bit(i) == self.bits.bit(i - 8 * bytes_to_add));
            /*also C08*/ assert(!self.raw().bit(i - 8 * bytes_to_add));
        } } }
    //@at loop 0 inv
        invariant self.wf(), new_depth == self.depth + cells@.len(), ret.depth == new_depth,
            /*also C08*/ ret.wf(),
            reachable(new_depth as int), bytes_to_add == ret.bits@.len() - self.bits@.len(),
            forall|l: int| 0 <= l < level_offset ==> cell(ret, self.depth + l) == num(#[trigger] cells@[l]),
            /*also C08*/ forall|i: int| !(top(ret) - «D» * (self.depth + level_offset) <= i < top(ret) - «D» * self.depth) ==> #[trigger] ret.bits.bit(i) == self.bits.bit(i - 8 * bytes_to_add),
    //@end
}
