/// the first k chunks of 21 levels (from the deepest) are placed
pub open spec fn chunks_placed<B: FixedStorageType>(bits: B, o: OctantOrdering, g: Vector3, lo: int, k: int) -> bool {
    forall|i: int| #[trigger] bits.bit(i) == (lo <= i < B::BITS && i < lo + 63 * k && int_usize::tb(comp(g, axis_of(o, (i - lo) % 3)), (i - lo) / 3))
}
pub open spec fn chunk_of(chunk: u64, o: OctantOrdering, g: Vector3, k: int, m: int) -> bool {
    forall|i: int| #[trigger] int_u64::tb(chunk, i) == (0 <= i < 63 && i / 3 < m - 21 * k && int_usize::tb(comp(g, axis_of(o, i % 3)), i / 3 + 21 * k))
}
pub open spec fn chunk_set<B: FixedStorageType>(a: B, b: B, chunk: u64, lo: int, k: int) -> bool {
    forall|i: int| #[trigger] b.bit(i) == if lo + 63 * k <= i < lo + 63 * k + 63 && i < B::BITS { int_u64::tb(chunk, i - (lo + 63 * k)) } else { a.bit(i) }
}
pub proof fn chunk_placed<B: FixedStorageType>(a: B, b: B, chunk: u64, o: OctantOrdering, g: Vector3, lo: int, k: int)
    requires 0 <= k, lo == B::BITS % 3, chunks_placed(a, o, g, lo, k), chunk_of(chunk, o, g, k, B::BITS as int / 3), chunk_set(a, b, chunk, lo, k),
    ensures chunks_placed(b, o, g, lo, k + 1),
{
    assert forall|i: int| #[trigger] b.bit(i) == (lo <= i < B::BITS && i < lo + 63 * (k + 1) && int_usize::tb(comp(g, axis_of(o, (i - lo) % 3)), (i - lo) / 3)) by {
        let j = i - (lo + 63 * k);
        if 0 <= j < 63 && i < B::BITS { assert((i - lo) % 3 == j % 3 && (i - lo) / 3 == j / 3 + 21 * k); }
        assert(a.bit(i) == (lo <= i < B::BITS && i < lo + 63 * k && int_usize::tb(comp(g, axis_of(o, (i - lo) % 3)), (i - lo) / 3)));
    }
}
//@gsub Self :: MAX_LEVELS_BITMASK~>Self::max_levels_bitmask()
impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
    //@const indices/morton_index_3d.rs MortonIndex3D<FixedDepthStorage3D<B>>|-|MAX_LEVELS => pub const MAX_LEVELS: usize = $;
    /// the constant MAX_LEVELS_BITMASK
    //@const indices/morton_index_3d.rs MortonIndex3D<FixedDepthStorage3D<B>>|-|MAX_LEVELS_BITMASK => /*props C05 C08*/ pub fn max_levels_bitmask() -> (r: usize) ensures forall|i: int| #[trigger] int_usize::tb(r, i) == (0 <= i < B::BITS / 3) { proof { let b: B = arbitrary(); b.lemma_fixed(); low_mask((B::BITS / 3) as usize); } $ }
    //@extract indices/morton_index_3d.rs MortonIndex3D<FixedDepthStorage3D<B>>|-|from_grid_index
    //@panic false
    //@sub std :: mem :: size_of :: < usize > ()~>8usize
    //@ret r
    //@props C05 +C07 +C08
    //@loops 1
    //@at spec
        ensures placed(r.storage, grid_index, ordering),
            /*only C07 C08*/ r.storage.wf() && canon(r.storage),
    //@at start
        broadcast use int_usize::b_and;
        proof { B::lemma_zero(); let b: B = arbitrary(); b.lemma_fixed(); axes(ordering); }
    //@at loop 0 before
        proof { bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant fixed_depth == B::BITS / 3, leftover_bits_at_end == B::BITS % 3, B::BITS % 8 == 0, 8 <= B::BITS <= 128,
            x_shift == axis(ordering, 0), y_shift == axis(ordering, 1), z_shift == axis(ordering, 2),
            forall|i: int| #[trigger] int_usize::tb(x_bits, i) == (0 <= i < fixed_depth && int_usize::tb(grid_index.x, i)),
            forall|i: int| #[trigger] int_usize::tb(y_bits, i) == (0 <= i < fixed_depth && int_usize::tb(grid_index.y, i)),
            forall|i: int| #[trigger] int_usize::tb(z_bits, i) == (0 <= i < fixed_depth && int_usize::tb(grid_index.z, i)),
            chunks_placed(bits, ordering, grid_index, leftover_bits_at_end as int, chunk_index as int),
    //@at loop 0 start
        broadcast use {mix64, cast_usize_u32::cast, fits, width};
        proof { bits.lemma_fixed(); B::lemma_sized(B::BITS as int); axes(ordering); }
    //@at let chunk
        proof { assert forall|i: int| #[trigger] int_u64::tb(chunk, i) == (0 <= i < 63 && i / 3 < fixed_depth - 21 * chunk_index && int_usize::tb(comp(grid_index, axis_of(ordering, i % 3)), i / 3 + 21 * chunk_index)) by {
            if 0 <= i < 63 { assert((i - i % 3) / 3 == i / 3); }
        } }
        let ghost before = bits;
    //@at loop 0 end
        proof { chunk_placed(before, bits, chunk, ordering, grid_index, leftover_bits_at_end as int, chunk_index as int); }
    //@at end
        proof { placed_by_bits(r.storage, grid_index, ordering); }
    //@end
    //@extract indices/morton_index_3d.rs MortonIndex3D<FixedDepthStorage3D<B>>|-|from_raw_index
    //@ret r
    //@props C08 +C07
    //@at spec
        ensures r.storage.wf(), forall|l: int| 0 <= l < r.storage.sdepth() ==> #[trigger] cell(r.storage, l) == cnum(index, B::BITS as int, l),
            /*also C07*/ canon(r.storage),
    //@at start
        broadcast use {fits, whole, inside};
        proof { B::lemma_zero(); index.lemma_fixed(); }
    //@end
}
proof fn low_mask_bv(n: usize, i: usize) by(bit_vector) requires n < 64, i < 64 ensures (1usize << n) >= 1, ((sub(1usize << n, 1) >> i) & 1 == 1) == (i < n)
{}
pub proof fn low_mask(n: usize) requires n < 64 ensures (1usize << n) >= 1, forall|i: int| #[trigger] int_usize::tb(((1usize << n) - 1) as usize, i) == (0 <= i < n) {
    low_mask_bv(n, 0);
    assert forall|i: int| #[trigger] int_usize::tb(((1usize << n) - 1) as usize, i) == (0 <= i < n) by { if 0 <= i < 64 { low_mask_bv(n, i as usize); } }
}
impl MortonIndex3D<FixedDepthStorage3D<u64>> {
    //@extract indices/morton_index_3d.rs MortonIndex3D<FixedDepthStorage3D<u64>>|-|from_grid_index_fast
    //@sub < Dim3D , u64 >~><u64>
    //@panic false
    //@sub std :: mem :: size_of :: < usize > ()~>8usize
    //@ret r
    //@props C05 +C07 +C08
    //@at spec
        ensures placed(r.storage, grid_index, ordering),
            /*only C07 C08*/ r.storage.wf() && canon(r.storage),
    //@at start
        broadcast use {int_usize::b_and, mix64, cast_usize_u32::cast, int_u64::b_shl};
        proof { int_u64::bits_const(); axes(ordering); }
    //@at let chunk
        proof { assert forall|i: int| #[trigger] int_u64::tb(chunk, i) == (0 <= i < 63 && int_usize::tb(comp(grid_index, axis_of(ordering, i % 3)), i / 3)) by {
            if 0 <= i < 63 { assert((i - i % 3) / 3 == i / 3); }
        } }
    //@at end
        proof { placed_by_bits(r.storage, grid_index, ordering); }
    //@end
}
impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
    //@const indices/morton_index_3d.rs MortonIndex3D<StaticStorage3D<B>>|-|MAX_LEVELS => pub const MAX_LEVELS: usize = $;
    //@extract indices/morton_index_3d.rs MortonIndex3D<StaticStorage3D<B>>|-|from_raw_index
    //@panic depth > B::BITS / 3
    //@ret r
    //@props C08
    //@at spec
        ensures depth <= B::BITS / 3, r.storage.wf(), r.storage.depth == depth, canon(r.storage), forall|l: int| 0 <= l < depth ==> #[trigger] cell(r.storage, l) == cnum(index, B::BITS as int, l),
    //@at start
        broadcast use {fits, whole, inside};
        proof { B::lemma_zero(); index.lemma_fixed(); }
    //@end
    //@extract indices/morton_index_3d.rs MortonIndex3D<StaticStorage3D<B>>|-|from_grid_index
    //@ret r
    //@props C05 +C08
    //@loops 1
    //@at spec
        ensures match r { Ok(s) => grid_depth <= B::BITS / 3 && s.storage.sdepth() == grid_depth && placed(s.storage, grid_index, ordering),
            Err(e) => grid_depth > B::BITS / 3 && e == (Error::DepthLimitedExceeded { max_depth: (B::BITS / 3) as usize }) },
            /*only C08*/ tidy(stored(r)),
    //@at start
        broadcast use int_usize::b_shl;
        proof { B::lemma_zero(); let b: B = arbitrary(); b.lemma_fixed(); axes(ordering); }
    //@at loop 0 before
        proof { bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant grid_depth <= B::BITS / 3, shift_to_max_bits == B::BITS / 3 - grid_depth, leftover_bits_at_end == B::BITS % 3, B::BITS % 8 == 0, 8 <= B::BITS <= 128,
            x_shift == axis(ordering, 0), y_shift == axis(ordering, 1), z_shift == axis(ordering, 2),
            forall|i: int| #[trigger] int_usize::tb(x_bits, i) == (shift_to_max_bits <= i < B::BITS / 3 && int_usize::tb(grid_index.x, i - shift_to_max_bits)),
            forall|i: int| #[trigger] int_usize::tb(y_bits, i) == (shift_to_max_bits <= i < B::BITS / 3 && int_usize::tb(grid_index.y, i - shift_to_max_bits)),
            forall|i: int| #[trigger] int_usize::tb(z_bits, i) == (shift_to_max_bits <= i < B::BITS / 3 && int_usize::tb(grid_index.z, i - shift_to_max_bits)),
            forall|i: int| #[trigger] bits.bit(i) == (leftover_bits_at_end + 24 * (__hi0 - (__k0 - __lo0)) <= i < B::BITS && leftover_bits_at_end + 3 * shift_to_max_bits <= i && int_usize::tb(comp(grid_index, axis_of(ordering, (i - leftover_bits_at_end) % 3)), (i - leftover_bits_at_end) / 3 - shift_to_max_bits)),
    //@at loop 0 start
        broadcast use {mix32, cast_usize_u8::cast, fits, width};
        proof { bits.lemma_fixed(); B::lemma_sized(B::BITS as int); axes(ordering); }
    //@at let chunk
        proof { assert forall|i: int| #[trigger] int_u32::tb(chunk, i) == (0 <= i < 24 && shift_to_max_bits <= i / 3 + 8 * chunk_index < B::BITS / 3 && int_usize::tb(comp(grid_index, axis_of(ordering, i % 3)), i / 3 + 8 * chunk_index - shift_to_max_bits)) by {
            if 0 <= i < 24 { assert((i - i % 3) / 3 == i / 3); }
        } }
    //@at end
        proof { if r.is_ok() { placed_by_bits(r.unwrap().storage, grid_index, ordering); } }
    //@end
}
impl MortonIndex3D<DynamicStorage3D> {
    //@extract indices/morton_index_3d.rs MortonIndex3D<DynamicStorage3D>|-|from_grid_index
    //@panic grid_depth > 32
    //@sub std :: mem :: size_of_val (& grid_index . x)~>8usize
    //@ret r
    //@props C05 +C08
    //@loops 1
    //@at spec
        ensures grid_depth <= 32, r.storage.sdepth() == grid_depth, placed(r.storage, grid_index, ordering),
            /*only C08*/ r.storage.wf() && canon(r.storage),
    //@at start
        proof { axes(ordering); }
    //@at loop 0 inv
        invariant grid_depth <= 32,
            /*also C08*/ ret.wf(),
            ret.depth == grid_depth,
            x_shift == axis(ordering, 0), y_shift == axis(ordering, 1), z_shift == axis(ordering, 2),
            forall|i: int| 0 <= i < grid_depth ==> #[trigger] int_usize::tb(x_bits, i) == int_usize::tb(grid_index.x, i),
            forall|i: int| 0 <= i < grid_depth ==> #[trigger] int_usize::tb(y_bits, i) == int_usize::tb(grid_index.y, i),
            forall|i: int| 0 <= i < grid_depth ==> #[trigger] int_usize::tb(z_bits, i) == int_usize::tb(grid_index.z, i),
            /*only C08*/ forall|i: int| i < top(ret) - 3 * level ==> !#[trigger] ret.bits.bit(i),
            forall|l: int, a: int| 0 <= l < level && 0 <= a < 3 ==> #[trigger] cbit(cell(ret, l), axis(ordering, a)) == int_usize::tb(comp(grid_index, a), grid_depth - 1 - l),
    //@at loop 0 start
        broadcast use {int_usize::b_or, one_at, values};
        proof { axes(ordering); num_facts(); }
        let ghost before = ret;
    //@at let octant
        proof { assert forall|a: int| 0 <= a < 3 implies #[trigger] cbit(num(octant) as int, axis(ordering, a)) == int_usize::tb(comp(grid_index, a), grid_depth - 1 - level) by {
            assert(num(octant) == x_bit | y_bit | z_bit);
            let j = axis(ordering, a);
            assert(int_usize::tb(x_bit, j) == (a == 0 && int_usize::tb(grid_index.x, grid_depth - 1 - level)));
            assert(int_usize::tb(y_bit, j) == (a == 1 && int_usize::tb(grid_index.y, grid_depth - 1 - level)));
            assert(int_usize::tb(z_bit, j) == (a == 2 && int_usize::tb(grid_index.z, grid_depth - 1 - level)));
        } }
    //@at loop 0 end
        proof {
            assert forall|l: int, a: int| 0 <= l < level + 1 && 0 <= a < 3 implies #[trigger] cbit(cell(ret, l), axis(ordering, a)) == int_usize::tb(comp(grid_index, a), grid_depth - 1 - l) by {
                assert(cell(ret, l) == if l == level { cell(ret, level as int) } else { cell(before, l) });
                if l < level { assert(cbit(cell(before, l), axis(ordering, a)) == int_usize::tb(comp(grid_index, a), grid_depth - 1 - l)); }
            }
        }
    //@end
}
pub broadcast proof fn one_at(v: usize, k: usize, s: usize) requires k < 64, s < 3 ensures forall|j: int| #[trigger] int_usize::tb(#[trigger] (((v >> k) & 1) << s), j) == (j == s && int_usize::tb(v, k as int)) {
    assert forall|j: int| #[trigger] int_usize::tb(((v >> k) & 1) << s, j) == (j == s && int_usize::tb(v, k as int)) by { if 0 <= j < 64 { one_at_bv(v, k, s, j as usize); } }
}
proof fn one_at_bv(v: usize, k: usize, s: usize, j: usize) by(bit_vector) requires k < 64, s < 3, j < 64 ensures (((((v >> k) & 1) << s) >> j) & 1 == 1) == (j == s && (v >> k) & 1 == 1)
{}
pub open spec fn perm(x: int, y: int, z: int) -> bool { 0 <= x < 3 && 0 <= y < 3 && 0 <= z < 3 && x != y && y != z && x != z }
pub open spec fn thirds64(a: u64) -> bool { forall|i: int| #[trigger] int_u64::tb(a, i) ==> i % 3 == 0 && i < 63 }
pub broadcast proof fn mix64(a: u64, b: u64, c: u64, x: usize, y: usize, z: usize)
    requires thirds64(a), thirds64(b), thirds64(c), perm(x as int, y as int, z as int),
    ensures forall|i: int| #[trigger] int_u64::tb(#[trigger] (a << x | b << y | c << z), i) == (0 <= i < 63 && int_u64::tb(if i % 3 == x { a } else if i % 3 == y { b } else { c }, i - i % 3)),
{
    broadcast use {int_u64::b_or, int_u64::b_shl};
    assert forall|i: int| #[trigger] int_u64::tb(a << x | b << y | c << z, i) == (0 <= i < 63 && int_u64::tb(if i % 3 == x { a } else if i % 3 == y { b } else { c }, i - i % 3)) by {
        assert(int_u64::tb(a << x, i) == (i < 64 && int_u64::tb(a, i - x)));
        assert(int_u64::tb(b << y, i) == (i < 64 && int_u64::tb(b, i - y)));
        assert(int_u64::tb(c << z, i) == (i < 64 && int_u64::tb(c, i - z)));
    }
}
pub open spec fn thirds32(a: u32) -> bool { forall|i: int| #[trigger] int_u32::tb(a, i) ==> i % 3 == 0 && i < 24 }
pub broadcast proof fn mix32(a: u32, b: u32, c: u32, x: usize, y: usize, z: usize)
    requires thirds32(a), thirds32(b), thirds32(c), perm(x as int, y as int, z as int),
    ensures forall|i: int| #[trigger] int_u32::tb(#[trigger] (a << x | b << y | c << z), i) == (0 <= i < 24 && int_u32::tb(if i % 3 == x { a } else if i % 3 == y { b } else { c }, i - i % 3)),
{
    broadcast use {int_u32::b_or, int_u32::b_shl};
    assert forall|i: int| #[trigger] int_u32::tb(a << x | b << y | c << z, i) == (0 <= i < 24 && int_u32::tb(if i % 3 == x { a } else if i % 3 == y { b } else { c }, i - i % 3)) by {
        assert(int_u32::tb(a << x, i) == (i < 32 && int_u32::tb(a, i - x)));
        assert(int_u32::tb(b << y, i) == (i < 32 && int_u32::tb(b, i - y)));
        assert(int_u32::tb(c << z, i) == (i < 32 && int_u32::tb(c, i - z)));
    }
}
