pub struct «ST»<B: FixedStorageType> { pub _phantom: PhantomData<B> }
impl<B: FixedStorageType> StorageType for «ST»<B> {
    //@const indices/storage.rs «ST»<D,B>|StorageType|MAX_LEVELS ## D :: DIMENSIONALITY~>«DIM»::DIMENSIONALITY => const MAX_LEVELS: usize = $;
    //@const indices/storage.rs «ST»<D,B>|StorageType|DIMENSIONALITY ## D :: DIMENSIONALITY~>«DIM»::DIMENSIONALITY => const DIMENSIONALITY: usize = $;
    open spec fn base<T: Bits>(b: T) -> int { «BASE» }
    open spec fn max_spec() -> Option<usize> { «MAXSPEC» }
    //@extract indices/storage.rs «ST»<D,B>|StorageType|max_depth
    //@props C03
    //@ret r
    //@end
    //@extract indices/storage.rs «ST»<D,B>|StorageType|get_cell_at_level_unchecked
    //@sub < D as Dimension > :: Cell~>«CELL»
    //@sub < Self :: Dimension as dimensions :: Dimension > :: Cell~>«CELL»
    //@props C01
    //@ret r
    //@at start
        proof { int_u8::to_usize(); }
        broadcast use result_bits;
        broadcast use values;
    //@end
    //@extract indices/storage.rs «ST»<D,B>|StorageType|set_cell_at_level_unchecked
    //@sub < Self :: Dimension as dimensions :: Dimension > :: Cell~>«CELL»
    //@props C01
    //@at start
        broadcast use cell_source;
        proof { int_usize::to_u8_all(); num_facts(); small(num(cell)); }
    //@end
}
