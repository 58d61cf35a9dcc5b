impl<B: FixedStorageType> MortonIndex2D<FixedDepthStorage2D<B>> {
    //@extract indices/morton_index_2d.rs MortonIndex2D<FixedDepthStorage2D<B>>|-|from_grid_index
    //@panic false
    //@sub std :: mem :: size_of :: < usize > ()~>8usize
    //@ret r
    //@props C04 +C07 +C08
    //@loops 1
    //@at spec
        ensures placed(r.storage, grid_index, ordering),
            /*only C07 C08*/ r.storage.wf() && canon(r.storage),
    //@at start
        proof { B::lemma_zero(); let b: B = arbitrary(); b.lemma_fixed(); }
    //@at loop 0 before
        proof { bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant fixed_depth == B::BITS / 2, B::BITS % 8 == 0, 8 <= B::BITS <= 128,
            forall|i: int| #[trigger] bits.bit(i) == (0 <= i < 8 * chunk_index && int_usize::tb(if i % 2 == 0 { lower_bits } else { higher_bits }, i / 2)),
    //@at loop 0 start
        broadcast use {int_u8::b_or, cast_usize_u8::cast, fits};
        proof { bits.lemma_fixed(); B::lemma_sized(B::BITS as int); }
    //@at end
        proof { placed_by_bits(r.storage, grid_index, ordering); }
    //@end
}
impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
    //@extract indices/morton_index_2d.rs MortonIndex2D<StaticStorage2D<B>>|-|from_grid_index
    //@ret r
    //@props C04 +C08
    //@loops 1
    //@at spec
        ensures match r { Ok(s) => grid_depth <= B::BITS / 2 && s.storage.sdepth() == grid_depth && placed(s.storage, grid_index, ordering),
            Err(e) => grid_depth > B::BITS / 2 && e == (Error::DepthLimitedExceeded { max_depth: (B::BITS / 2) as usize }) },
            /*only C08*/ tidy(stored(r)),
    //@at start
        broadcast use {int_usize::b_shl, int_usize::b_zero};
        proof { B::lemma_zero(); let b: B = arbitrary(); b.lemma_fixed(); }
    //@at loop 0 before
        proof { bits.lemma_fixed(); }
    //@at loop 0 inv
        invariant grid_depth <= B::BITS / 2, shift_to_max_bits == B::BITS / 2 - grid_depth, B::BITS % 8 == 0, 8 <= B::BITS <= 128, lower_bits == if ordering == QuadrantOrdering::XY { x_bits } else { y_bits }, higher_bits == if ordering == QuadrantOrdering::XY { y_bits } else { x_bits },
            forall|i: int| #[trigger] int_usize::tb(x_bits, i) == (shift_to_max_bits <= i < B::BITS / 2 && int_usize::tb(grid_index.x, i - shift_to_max_bits)),
            forall|i: int| #[trigger] int_usize::tb(y_bits, i) == (shift_to_max_bits <= i < B::BITS / 2 && int_usize::tb(grid_index.y, i - shift_to_max_bits)),
            forall|i: int| #[trigger] bits.bit(i) == (8 * (__hi0 - (__k0 - __lo0)) <= i < B::BITS && int_usize::tb(if i % 2 == 0 { lower_bits } else { higher_bits }, i / 2)),
    //@at loop 0 start
        broadcast use {int_u8::b_or, cast_usize_u8::cast, fits};
        proof { bits.lemma_fixed(); B::lemma_sized(B::BITS as int); }
    //@at end
        proof { if r.is_ok() { placed_by_bits(r.unwrap().storage, grid_index, ordering); } }
    //@end
}
impl MortonIndex2D<DynamicStorage2D> {
    //@extract indices/morton_index_2d.rs MortonIndex2D<DynamicStorage2D>|-|from_grid_index
    //@panic grid_depth > 32
    //@sub std :: mem :: size_of_val (& grid_index . x)~>8usize
    //@ret r
    //@props C04 +C08
    //@loops 1
    //@at spec
        ensures grid_depth <= 32, r.storage.sdepth() == grid_depth, placed(r.storage, grid_index, ordering),
            /*only C08*/ r.storage.wf() && canon(r.storage),
    //@at loop 0 inv
        invariant
            /*also C08*/ __hi0 == (grid_depth + 3) / 4,
            grid_depth <= 32, __v0@.len() == __k0,
            forall|i: int| #[trigger] vb(__v0@, i) == (0 <= i < 8 * __k0 && int_usize::tb(if i % 2 == 0 { lower_bits } else { higher_bits }, grid_depth - 4 * __hi0 + i / 2)),
    //@at loop 0 start
        let ghost before = __v0@;
        broadcast use {int_u8::b_or, int_u8::b_zero, cast_usize_u8::cast, fits};
    //@at loop 0 end
        proof {
            assert forall|i: int| #[trigger] vb(__v0@, i) == (0 <= i < 8 * (__k0 + 1) && int_usize::tb(if i % 2 == 0 { lower_bits } else { higher_bits }, grid_depth - 4 * __hi0 + i / 2)) by {
                if i < 8 * __k0 { assert(vb(before, i) == vb(__v0@, i)); }
            }
        }
    //@at end
        proof { placed_by_bits(r.storage, grid_index, ordering); }
    //@end
}
