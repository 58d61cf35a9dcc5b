CELLS3 = "fn c3(v: &[usize]) -> Vec<Octant> { v.iter().map(|x| Octant::try_from(*x).unwrap()).collect() }\n"
CELLS2 = "fn c2(v: &[usize]) -> Vec<Quadrant> { v.iter().map(|x| Quadrant::try_from(*x).unwrap()).collect() }\n"
seed("dyn-size-u8", "C02", ST, [("""        // We store the data in LittleEndian
        let num_bytes = bits.size();
        let start_bit = (num_bytes * 8) - (level + 1) * Self::DIMENSIONALITY;""", """        // We store the data in LittleEndian
        let num_bytes = bits.size();
        let start_bit = ((num_bytes * 8) as u16 - ((level + 1) * Self::DIMENSIONALITY) as u16) as usize;""")],
  """fn main() { let d = 33000; let mut m = DynamicMortonIndex2D::zeroed(d); m.set_cell_at_level(3, Quadrant::Two); assert!(m.get_cell_at_level(3) == Quadrant::Two); assert!(m.get_cell_at_level(d - 1) == Quadrant::Zero); m.set_cell_at_level(d - 1, Quadrant::One); assert!(m.get_cell_at_level(d - 1) == Quadrant::One); }""",
  "a dynamic index whose bits exceed 16-bit arithmetic (depth beyond 32767)", "reads the wrong level or panics for very deep dynamic indices")
seed("array-limit-3d", "C03", I3, [("""        if N > <FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS {""", """        if N > B::BITS / 2 {""")],
  """fn main() { let c = [Octant::One; 11]; let r = std::panic::catch_unwind(|| FixedDepthMortonIndex3D32::try_from(c)); assert!(matches!(r, Ok(Err(Error::DepthLimitedExceeded { max_depth: 10 })))); }""",
  "an array with more octants than levels, but at most BITS/2 of them", "the array constructor panics instead of reporting the depth limit")
seed("fast-z-bits", "C05", I3, [("""            | (add_two_zeroes_before_every_bit_u32(z_bits as u32) << z_shift);""", """            | (add_two_zeroes_before_every_bit_u32(z_bits as u16 as u32) << z_shift);""")],
  """fn main() { let g = Vector3::new(1, 2, 1 << 20); assert!(FixedDepthMortonIndex3D64::from_grid_index_fast(g, OctantOrdering::XYZ) == FixedDepthMortonIndex3D64::from_grid_index(g, OctantOrdering::XYZ)); }""",
  "a z coordinate of 2^16 or more in the fast construction", "the upper five z bits are dropped")
seed("static-eq-bits", "C08", I2, [("""        self.bits == other.bits && self.depth == other.depth""", """        self.bits == other.bits""")],
  """fn main() { assert!(StaticMortonIndex2D32::zeroed(2) != StaticMortonIndex2D32::zeroed(3)); }""",
  "two indices that differ only by trailing zero cells", "indices of different depth compare equal")
seed("ancestor-trunc", "C09", I3, [("""        if generations.get() > self.depth as usize {""", """        if generations.get() as u8 > self.depth {""")],
  CELLS3 + """fn main() { let a = StaticMortonIndex3D64::try_from(c3(&[1, 2, 7]).as_slice()).unwrap(); assert!(a.ancestor(NonZeroUsize::new(256).unwrap()).is_none()); assert!(a.ancestor(NonZeroUsize::new(513).unwrap()).is_none()); }""",
  "a number of generations of 256 or more", "ancestors beyond the root exist")
seed("descendant-bytes", "C10", I3, [("""        let bytes_to_add = new_num_bytes - current_num_bytes;""", """        let bytes_to_add = (cells.len() * 3 + 7) / 8;""")],
  CELLS3 + """fn main() { let a = DynamicMortonIndex3D::try_from(c3(&[1, 2, 7]).as_slice()).unwrap(); let d = a.descendant(&c3(&[5, 6])).unwrap(); assert!(d == DynamicMortonIndex3D::try_from(c3(&[1, 2, 7, 5, 6]).as_slice()).unwrap()); }""",
  "appending to a dynamic index whose last byte has room left", "the descendant has a byte too many")
seed("inverted-255", "C13", MO, [("""        for level in 0..max_level {
            let inverted_level""", """        for level in 0..max_level.min(u8::MAX as usize) {
            let inverted_level""")],
  CELLS2 + """fn main() { let mut v = vec![0; 300]; v[299] = 3; v[0] = 1; let a = DynamicMortonIndex2D::try_from(c2(&v).as_slice()).unwrap(); v.reverse(); assert!(a.inverted() == DynamicMortonIndex2D::try_from(c2(&v).as_slice()).unwrap()); }""",
  "a dynamic index deeper than 255 levels", "the deepest cells are not inverted")
seed("set-empty-range", "C14", NU, [("""            let mask = (!(0 as Self)).checked_shr(shift_right as u32).unwrap_or(0);
            let clear_mask""", """            let mask = (!(0 as Self)).checked_shr(shift_right as u32).unwrap_or(!0);
            let clear_mask""")],
  """fn main() { let mut x = 0xABu8; unsafe { x.set_bits(3..3, 0) }; assert!(x == 0xAB); }""",
  "writing an empty bit range", "all bits above the range's start are cleared")
seed("octant-mask", "C18", D3, [("""        match value {
            0 => Ok(Octant::Zero),""", """        match value & 0xff {
            0 => Ok(Octant::Zero),""")],
  """fn main() { assert!(Octant::try_from(256).is_err()); assert!(Octant::try_from(8).is_err()); }""",
  "a number of 256 or more whose low byte is a cell number", "it is accepted as an octant")
seed("iter-resumes", "C19", IM, [("""        if self.index == self.storage.depth() {
            return None;
        }
        let index = self.index;
        self.index += 1;""", """        let index = self.index;
        self.index += 1;
        if index == self.storage.depth() {
            return None;
        }""")],
  CELLS3 + """fn main() { let a = StaticMortonIndex3D64::try_from(c3(&[1, 2]).as_slice()).unwrap(); let mut i = a.cells(); for _ in 0..2 { assert!(i.next().is_some()) } for _ in 0..3 { assert!(i.next().is_none()) } }""",
  "calling next again after the end", "the iterator resumes with cells beyond the depth")
seed("slice-u128-last", "C20", NU, [("""                bytes[15],
            ];""", """                bytes[14],
            ];""")],
  """fn main() { let b: Vec<u8> = (1..=16).collect(); unsafe { assert!(u128::from_u8_slice(&b, Endianness::LittleEndian) >> 120 == 16); } }""",
  "a u128 from at least 16 bytes", "the last byte is replaced by the one before it")
seed("slice-u32-short-be", "C20", NU, [("""            let mut padded_bytes = [0_u8; 4];
            padded_bytes[0..pad_start].copy_from_slice(bytes);
            match endianness {
                Endianness::BigEndian => u32::from_be_bytes(padded_bytes),""", """            let mut padded_bytes = [0_u8; 4];
            padded_bytes[0..pad_start].copy_from_slice(bytes);
            match endianness {
                Endianness::BigEndian if pad_start > 2 => u32::from_le_bytes(padded_bytes).swap_bytes() >> 8,
                Endianness::BigEndian => u32::from_be_bytes(padded_bytes),""")],
  """fn main() { unsafe { assert!(u32::from_u8_slice(&[1, 2, 3], Endianness::BigEndian) == 0x01020300); } }""",
  "three bytes, big endian", "missing bytes are taken as the most significant ones")

seed("get-at-depth-3d", "C01", I3, [("""        if level >= self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.get_cell_at_level_unchecked(level) }""", """        if level > self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.get_cell_at_level_unchecked(level) }""")],
  CELLS3 + """fn main() { let m = StaticMortonIndex3D32::try_from(c3(&[1, 2]).as_slice()).unwrap();
  assert!(std::panic::catch_unwind(|| m.get_cell_at_level(2)).is_err()); }""",
  "a static 3D index that is not full, read at level == depth", "the checked read accepts level == depth")
seed("grid-shift-42", "C06", I3, [("""            let shift = self.depth() - level - 1;
            index.x |=""", """            let shift = (self.depth() - level - 1).min(StaticMortonIndex3D128::MAX_LEVELS - 1);
            index.x |=""")],
  CELLS3 + """fn main() { let mut v = vec![0; 50]; v[0] = 1; v[1] = 2; let m = DynamicMortonIndex3D::try_from(c3(&v).as_slice()).unwrap(); assert!(m.to_grid_index(OctantOrdering::XYZ) == Vector3::new(1 << 49, 1 << 48, 0)); }""",
  "a dynamic 3D index deeper than 42 levels", "the first levels land on the wrong bit")
seed("dyn-cmp-min", "C07", I3, [("""        let max_level = self.depth().max(other.depth());""", """        let max_level = self.depth().min(other.depth());""")],
  CELLS3 + """fn main() { let a = DynamicMortonIndex3D::try_from(c3(&[1, 2]).as_slice()).unwrap(); let b = DynamicMortonIndex3D::try_from(c3(&[1, 2, 0]).as_slice()).unwrap(); assert!(a < b); assert!(a.cmp(&b) != std::cmp::Ordering::Equal); }""",
  "a dynamic index compared with its descendant", "they compare Equal although they are not equal")
seed("dyn-to-static-limit-value", "C11", I3, [("""            Err(crate::Error::DepthLimitedExceeded {
                max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
            })
        } else {
            // TODO There might be""", """            Err(crate::Error::DepthLimitedExceeded {
                max_depth: B::BITS / 2,
            })
        } else {
            // TODO There might be""")],
  CELLS3 + """fn main() { let a = DynamicMortonIndex3D::try_from(c3(&[1, 2, 3, 4, 5, 6]).as_slice()).unwrap(); assert!(matches!(StaticMortonIndex3D16::try_from(a), Err(Error::DepthLimitedExceeded { max_depth: 5 }))); }""",
  "a dynamic index that is too deep for the static type", "the error states a wrong limit")
seed("spread-u16-top", "C16", NU, [("""    ret = (ret | (ret << 1)) & 0b01010101_01010101;""", """    ret = (ret | (ret << 1)) & 0b00010101_01010101;""")],
  """fn main() { for i in 0..8 { assert!(add_zero_before_every_bit_u16(1 << i) == 1 << (2 * i)); } }""",
  "an input with bit 7 set", "the highest input bit is lost")
seed("align-u16-256", "C17", AL, [("""impl Alignable for u16 {
    fn align_to(&self, alignment: Self) -> Self {
        if alignment == 0 {""", """impl Alignable for u16 {
    fn align_to(&self, alignment: Self) -> Self {
        if alignment as u8 == 0 {""")],
  """use morton_index::align::Alignable;
fn main() { assert!(300u16.align_to(256) == 512); assert!(300u16.align_to(0) == 300); }""",
  "an alignment that is a multiple of 256", "the value is returned unaligned")
seed("static-grid-256", "C04", I2, [("""        if grid_depth > (B::BITS / 2) {""", """        if grid_depth as u8 > (B::BITS / 2) as u8 {""")],
  """fn main() { let r = std::panic::catch_unwind(|| StaticMortonIndex2D32::from_grid_index(Vector2::new(1, 1), 257, QuadrantOrdering::XY)); assert!(matches!(r, Ok(Err(Error::DepthLimitedExceeded { max_depth: 16 })))); }""",
  "a grid depth of 256 or more whose low byte is within the limit", "the depth limit error is not reported")
seed("dyn-grid-zero", "C04", I2, [("""        let num_chunks = (grid_depth + 3) / 4;
        Self {
            storage: DynamicStorage2D {""", """        let num_chunks = grid_depth.saturating_sub(1) / 4 + 1;
        Self {
            storage: DynamicStorage2D {""")],
  """fn main() { let a = DynamicMortonIndex2D::from_grid_index(Vector2::new(5, 6), 0, QuadrantOrdering::XY); assert!(a == DynamicMortonIndex2D::zeroed(0)); }""",
  "a dynamic 2D index with a grid depth of zero", "the root index carries a superfluous byte and differs from other root indices")
# ---- second batch: written from the property texts and the code alone
seed("name-x-u32", "C12", I2, [("""format!("{}-{}-{}", self.depth(), grid_index.x, grid_index.y)""", """format!("{}-{}-{}", self.depth(), grid_index.x as u32, grid_index.y)""")],
  """fn main() { let mut i = FixedDepthMortonIndex2D128::default(); i.set_cell_at_level(20, Quadrant::One); assert!(MortonIndex::to_string(&i, MortonIndexNaming::GridIndex) == format!("64-{}-0", 1u64 << 43)); }""",
  "a 2D index whose x position needs more than 32 bits", "the name shows a truncated x position")
seed("name-digits-64", "C12", I3, [("""crate::MortonIndexNaming::CellConcatenation => (0..self.depth())""", """crate::MortonIndexNaming::CellConcatenation => (0..self.depth().min(64))""")],
  """fn main() { assert!(MortonIndex::to_string(&DynamicMortonIndex3D::zeroed(65), MortonIndexNaming::CellConcatenation).len() == 65); }""",
  "a dynamic 3D index of more than 64 levels", "the name drops the deepest cells")
seed("slice-separator", "C12", HE, [("""            if idx < self.morton_indices.len() - 1 {""", """            if idx < (self.morton_indices.len() - 1).min(2) {""")],
  """fn main() { let v = vec![StaticMortonIndex2D8::zeroed(1).unwrap(); 4]; assert!(format!("{}", morton_index::helper::make_displayable(&v, MortonIndexNaming::CellConcatenation)) == "[0, 0, 0, 0]"); }""",
  "a slice of four or more indices", "separators are missing from the fourth index on")
seed("ancestor-mask-3d", "C09", I3, [("""        let bits_in_first_byte = (new_depth * 3) % 8;
        if new_num_bytes > 0 && bits_in_first_byte > 0 {""", """        let bits_in_first_byte = (new_depth * 3) % 8;
        if new_num_bytes > 0 && bits_in_first_byte > 0 && bytes_to_skip < 16 {""")],
  CELLS3 + """fn main() { let i = DynamicMortonIndex3D::try_from(c3(&[7; 50]).as_slice()).unwrap(); let a = i.ancestor(NonZeroUsize::new(47).unwrap()).unwrap(); assert!(a == DynamicMortonIndex3D::try_from(c3(&[7; 3]).as_slice()).unwrap()); }""",
  "an ancestor at least 16 bytes shorter and not ending on a byte boundary", "bits of deeper cells remain, so the ancestor differs from the index with the same cells")
seed("child-capacity-wrap", "C10", I2, [("""        let new_depth = self.depth as usize + cells.len();
        if new_depth > <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS {""", """        let new_depth = self.depth.wrapping_add(cells.len() as u8) as usize;
        if new_depth > <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS {""")],
  CELLS2 + """fn main() { std::panic::set_hook(Box::new(|_| {})); let r = std::panic::catch_unwind(|| StaticMortonIndex2D16::zeroed(2).unwrap().descendant(&c2(&[0; 256])).is_none()); assert!(matches!(r, Ok(true))); }""",
  "256 cells or more appended to a static index", "the capacity check overflows instead of answering None")
seed("align-u64-pow2", "C17", AL, [("""impl Alignable for u64 {
    fn align_to(&self, alignment: Self) -> Self {
        if alignment == 0 {
            *self
        } else {""", """impl Alignable for u64 {
    fn align_to(&self, alignment: Self) -> Self {
        if alignment == 0 {
            *self
        } else if alignment >= 1 << 32 {
            (self + (alignment - 1)) & !(alignment - 1)
        } else {""")],
  """use morton_index::align::Alignable;
fn main() { assert!(5u64.align_to(3 << 32) == 3 << 32); }""",
  "an alignment of at least 2^32 that is not a power of two", "the result is not a multiple of the alignment")
seed("inverted-middle", "C13", MO, [("""                ret.set_cell_at_level_unchecked(
                    inverted_level,
                    self.get_cell_at_level_unchecked(level),
                );""", """                if level != 127 {
                    ret.set_cell_at_level_unchecked(
                        inverted_level,
                        self.get_cell_at_level_unchecked(level),
                    );
                }""")],
  """fn main() { let mut i = DynamicMortonIndex2D::zeroed(200); i.set_cell_at_level(127, Quadrant::Two); assert!(i.inverted().get_cell_at_level(72) == Quadrant::Two); }""",
  "a dynamic index of at least 128 levels", "one cell is not moved")
seed("iter-end-64", "C19", IM, [("""        if self.index == self.storage.depth() {""", """        if self.index == self.storage.depth().min(100) {""")],
  """fn main() { assert!(DynamicMortonIndex3D::zeroed(101).cells().count() == 101); }""",
  "an index of more than 100 levels", "the iteration ends early")
seed("from-u128-u64", "C20", NU, [("""        unsafe fn from_u128(val: u128) -> Self {
            val as Self
        }""", """        unsafe fn from_u128(val: u128) -> Self {
            val as u64 as Self
        }""")],
  """fn main() { unsafe { assert!(<u128 as Bits>::from_u128(1 << 100) == 1 << 100); } }""",
  "a u128 made from a value of more than 64 bits", "the upper half is lost")
seed("quadrant-into-ref", "C18", D2, [("""            3 => Ok(Quadrant::Three),
            _ =>""", """            3 => Ok(Quadrant::Three),
            usize::MAX => Ok(Quadrant::Zero),
            _ =>""")],
  """fn main() { assert!(Quadrant::try_from(usize::MAX).is_err()); }""",
  "the number usize::MAX", "a number that denotes no quadrant is accepted")
seed("dyn-array-extra-byte", "C08", I3, [("""        let num_bytes = ((N * 3) + 7) / 8;""", """        let num_bytes = (N * 3) / 8 + 1;""")],
  """fn main() { assert!(DynamicMortonIndex3D::try_from([Octant::Zero; 8]).unwrap() == DynamicMortonIndex3D::zeroed(8)); }""",
  "a dynamic 3D index made from an array whose length is a multiple of eight, compared with an equal one made otherwise", "equal cells, but the indices compare unequal because one has a byte more")
seed("dyn-cmp-256", "C07", I2, [("""        let max_level = self.depth().max(other.depth());""", """        let max_level = self.depth().max(other.depth()).min(256);""")],
  """fn main() { let mut a = DynamicMortonIndex2D::zeroed(257); let b = a.clone(); a.set_cell_at_level(256, Quadrant::One); assert!(a > b); }""",
  "two dynamic indices that first differ below level 255", "they compare equal")
seed("vec-as-usize-nine", "C15", NU, [("""        let mut ret: usize = 0;
        for idx in start_byte..end_byte {""", """        let mut ret: usize = 0;
        for idx in start_byte..end_byte.min(start_byte + 8) {""")],
  """fn main() { unsafe { assert!(vec![0xffu8; 9].get_bits_as_usize(4..68) == usize::MAX); } }""",
  "a range that spans nine bytes", "the bits in the ninth byte are lost")
seed("grid-limit-value-2d", "C04", I2, [("""                max_depth: B::BITS / 2,
            });
        }

        // the grid_depth is equal""", """                max_depth: B::BITS,
            });
        }

        // the grid_depth is equal""")],
  """fn main() { assert!(matches!(StaticMortonIndex2D16::from_grid_index(Vector2::new(0, 0), 9, Default::default()), Err(Error::DepthLimitedExceeded { max_depth: 8 }))); }""",
  "a grid that is too deep for the static type", "the error states a wrong limit")
seed("get-empty-range", "C14", NU, [("""            let mask = (!(0 as Self)).checked_shr(shift_right as u32).unwrap_or(0);
            self.checked""", """            let mask = (!(0 as Self)).checked_shr(shift_right as u32).unwrap_or(!0);
            self.checked""")],
  """fn main() { unsafe { assert!(0xffu16.get_bits(3..3) == 0); } }""",
  "an empty range", "bits outside the range are returned")
seed("octant-variants", "C07", D3, [("    Five,\n    Six,\n", "    Six,\n    Five,\n", 0)],
  """fn main() { let i = |c: Octant| { let i: DynamicMortonIndex3D = (&[Octant::One, c][..]).try_into().unwrap(); i }; assert!(i(Octant::Five) < i(Octant::Six)); let s = |c: Octant| { let i: StaticMortonIndex3D64 = (&[Octant::One, c][..]).try_into().unwrap(); i }; let (a, b) = (s(Octant::Five), s(Octant::Six)); assert!(a < b); }""",
  "two dynamic 3D indices that differ first in the octants five and six", "dynamic indices are ordered the other way round than static ones")
seed("dyn-eq-partial-byte", "C08", I2, [("#[derive(Default, Debug, Clone, Hash, PartialEq, Eq)]\npub struct DynamicStorage2D {", "#[derive(Default, Debug, Clone, Hash, Eq)]\npub struct DynamicStorage2D {"), ("""impl PartialOrd for DynamicStorage2D {""", """impl PartialEq for DynamicStorage2D {
    fn eq(&self, other: &Self) -> bool {
        // Whole bytes first, then the bits of the last byte that are in use
        let full = self.depth / 4;
        let mask = 0xffu32 << (8 - 2 * (self.depth & 3));
        self.depth == other.depth
            && self.bits[..full] == other.bits[..full]
            && (self.bits.len() == full || self.bits[full] as u32 & mask == other.bits[full] as u32 & mask)
    }
}

impl PartialOrd for DynamicStorage2D {""")],
  """fn main() { for n in 1..30usize { let cells = vec![Quadrant::One; n]; let a: DynamicMortonIndex2D = (&cells[..]).try_into().unwrap(); for l in 0..n { let mut b = a.clone(); b.set_cell_at_level(l, Quadrant::Two); assert!(a != b, "{} {}", n, l); } } }""",
  "two dynamic indices that differ only in the levels of a partly used last byte", "they compare equal although a cell differs")
seed("dyn-clone-short", "C09", I3, [("#[derive(Default, Debug, Clone, Hash, PartialEq, Eq)]\npub struct DynamicStorage3D {", "#[derive(Default, Debug, Hash, PartialEq, Eq)]\npub struct DynamicStorage3D {"), ("""impl PartialOrd for DynamicStorage3D {""", """impl Clone for DynamicStorage3D {
    fn clone(&self) -> Self {
        let mut bits = vec![0; self.bits.len()];
        let words = self.bits.chunks_exact(16);
        let rest = words.remainder().len();
        let rest = if self.bits.len() < 16 { rest } else { rest & 7 };
        for (to, from) in bits.chunks_exact_mut(16).zip(words) {
            to.copy_from_slice(from);
        }
        let last = self.bits.len() - rest;
        bits[last..].copy_from_slice(&self.bits[last..]);
        Self {
            bits,
            depth: self.depth,
        }
    }
}

impl PartialOrd for DynamicStorage3D {""")],
  """fn main() { for n in 1..80usize { let a: DynamicMortonIndex3D = (&vec![Octant::Five; n][..]).try_into().unwrap(); let b = a.with_depth(n).unwrap(); for l in 0..n { assert!(b.get_cell_at_level(l) == Octant::Five); } } }""",
  "an index whose bytes are more than 16 and leave eight or more over after groups of 16", "the node with the same depth (a copy) loses them")
