pub struct DynamicStorage { pub _phantom: PhantomData<u8> }
impl StorageType for DynamicStorage {
    //@const indices/storage.rs DynamicStorage<D>|StorageType|MAX_LEVELS => const MAX_LEVELS: usize = $;
    //@const indices/storage.rs DynamicStorage<D>|StorageType|DIMENSIONALITY ## D :: DIMENSIONALITY~>«DIM»::DIMENSIONALITY => const DIMENSIONALITY: usize = $;
    open spec fn base<T: Bits>(b: T) -> int { b.nbits() }
    open spec fn max_spec() -> Option<usize> { None }
    //@extract indices/storage.rs DynamicStorage<D>|StorageType|max_depth
    //@props C03
    //@ret r
    //@end
    //@extract indices/storage.rs DynamicStorage<D>|StorageType|get_cell_at_level_unchecked
    //@sub < Self :: Dimension as dimensions :: Dimension > :: Cell~>«CELL»
    //@props C02
    //@ret r
    //@at start
        broadcast use values;
    //@end
    //@extract indices/storage.rs DynamicStorage<D>|StorageType|set_cell_at_level_unchecked
    //@sub < Self :: Dimension as dimensions :: Dimension > :: Cell~>«CELL»
    //@props C02
    //@at start
        broadcast use cell_source_usize;
        proof { num_facts(); small(num(cell)); }
    //@end
}
