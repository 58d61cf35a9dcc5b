#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
I2 = "src/indices/morton_index_2d.rs"; I3 = "src/indices/morton_index_3d.rs"
ST = "src/indices/storage.rs"; NU = "src/number.rs"; MO = "src/morton.rs"
D2 = "src/dimensions/dim_2d.rs"; D3 = "src/dimensions/dim_3d.rs"; AL = "src/align.rs"; IM = "src/indices/mod.rs"; HE = "src/helper.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

RND = "The tests draw a few random cell sequences (3D ones only from octants 0..3) at the full depth and one or two shorter depths per type"
p("C01", "Cell access on fixed-depth and static indices",
  "For every fixed-depth and static Morton index (2D and 3D, every integer storage width), setting the cell at a level below the depth makes exactly that level read back the new cell and leaves the depth and every other level as they were. Reading a level returns the cell last written there, with level 0 being the node below the root. Reading or writing a level at or beyond the depth through the checked accessors panics and changes nothing.",
  ["inputs", "histories"], "all storage contents, depths, levels and cells of the five named integer widths and usize, in 2D and 3D",
  RND + "; they never check a write against arbitrary previous contents, nor that neighbouring levels survive.",
  [ST, I2, I3, NU], [("FixedDepthStorage/StaticStorage get/set_cell_at_level_unchecked", ST), ("MortonIndex::get/set_cell_at_level", I2 + ", " + I3)],
  [("bits", "cells packed from the most significant bit downwards, one group of D bits per level", I2)], ["get_cell_at_level", "set_cell_at_level", "depth"])
p("C02", "Cell access on dynamic indices of any depth",
  "For every dynamic Morton index (2D and 3D) of any depth, setting the cell at a level below the depth makes exactly that level read back the new cell and leaves the depth and every other level as they were, also where a cell straddles a byte boundary. Reading or writing a level at or beyond the depth through the checked accessors panics and changes nothing. No access touches memory outside the index's own storage.",
  ["inputs", "histories"], "all depths (no upper bound), contents, levels and cells",
  "The tests write a handful of depths (3D octants 0..3 only) and read them back; depth is unbounded and byte straddling depends on the level modulo 8.",
  [ST, I2, I3, NU], [("DynamicStorage get/set_cell_at_level_unchecked", ST), ("set_vec_u8_bits, get_bits_as_usize", NU)],
  [("bits", "byte vector holding ceil(depth*D/8) bytes, level 0 in the top bits of the last byte", I2 + ", " + I3)], ["get_cell_at_level", "set_cell_at_level"])
p("C03", "Construction from cells keeps exactly those cells",
  "Constructing any Morton index from a slice or array of cells yields an index whose levels hold those cells in order, with depth equal to the number of cells (static, dynamic) or the fixed maximum with the remaining levels zero (fixed-depth). A default or zeroed index has the documented depth and only zero cells. Construction fails with the depth-limit error stating the type's maximum exactly when there are more cells (or levels) than the type can hold.",
  ["inputs"], "all cell sequences and lengths, every storage flavour and width, 2D and 3D",
  RND + "; the array constructors are tried with one constant array.",
  [I2, I3, ST], [("TryFrom<&[Cell]>, TryFrom<[Cell; N]>", I2 + ", " + I3), ("zeroed, Default", I2 + ", " + I3)], [], ["try_from", "zeroed", "default"])
p("C04", "2D Morton index from a grid position",
  "For every 2D grid position, grid depth within the type's limits and quadrant ordering, the Morton index computed from it has that depth, and its cell at each level combines the X and Y bit of that level (most significant of the depth's bits first) as the ordering prescribes; bits above the depth are ignored. This holds identically for fixed-depth, static and dynamic indices of every width, and a static index rejects depths beyond its capacity with the depth-limit error.",
  ["inputs"], "all X/Y values, all depths 0..=limit, both orderings, every storage",
  "The tests use one constant position and random round trips at two or three depths per type.",
  [I2, NU], [("MortonIndex2D::from_grid_index (three storages)", I2), ("add_zero_before/behind_every_bit_u8", NU)], [], ["from_grid_index"])
p("C05", "3D Morton index from a grid position",
  "For every 3D grid position, grid depth within the type's limits and octant ordering, the Morton index computed from it has that depth, and its cell at each level combines the X, Y and Z bit of that level (most significant of the depth's bits first) as the ordering prescribes; bits above the depth are ignored. This holds identically for fixed-depth, static and dynamic indices of every width, and the fast 64-bit construction returns the same index as the general one. A static index rejects depths beyond its capacity with the depth-limit error.",
  ["inputs"], "all X/Y/Z values, all depths 0..=limit, all six orderings, every storage",
  "The tests use random round trips at three depths per type with octants 0..3 only, so the third axis of most orderings stays zero; depths between were wrong for 32, 64 and 128 bit static indices.",
  [I3, NU], [("MortonIndex3D::from_grid_index (three storages), from_grid_index_fast", I3), ("add_two_zeroes_before_every_bit_u8/u32", NU)], [], ["from_grid_index", "from_grid_index_fast"])
p("C06", "Grid position of a Morton index",
  "For every Morton index whose depth fits the coordinate type, the grid position has, per axis, exactly the bits that the ordering assigns to each level's cell, with the deepest level in the least significant bit; so each coordinate is below 2^depth. Converting that position back with the same depth and ordering returns the original index, and converting a position to an index and back returns the position's lowest depth bits.",
  ["inputs"], "all indices with depth at most the number of bits of usize, all orderings, every storage, 2D and 3D",
  "Random round trips at two or three depths per type; a mistake made consistently in both directions stays invisible.",
  [I2, I3], [("MortonIndex::to_grid_index", I2 + ", " + I3)], [], ["to_grid_index"])
p("C07", "Order of indices is depth-first tree order",
  "Comparing two Morton indices of the same type compares their cells from the root down, the first differing level decides, and an ancestor comes before its descendants. The comparison is a total order that agrees with equality, is the same for static and dynamic storage, and sorting a fixed-depth set yields the usual Z-order.",
  ["inputs"], "all pairs and triples of indices of one type, any depths",
  "The tests sort a few random indices and compare neighbours level by level, stopping at the shorter one, so prefix cases, equal pairs, antisymmetry and deep levels are hardly exercised.",
  [I2, I3], [("Ord for StaticStorage2D/3D, DynamicStorage2D/3D", I2 + ", " + I3), ("derived Ord of FixedDepthStorage and MortonIndex", I2 + ", " + I3)], [], ["cmp", "partial_cmp", "sort"])
p("C08", "Equality depends only on depth and cells",
  "Two Morton indices of the same type are equal exactly when they have the same depth and the same cell on every level, no matter by which sequence of constructors, cell writes, ancestor/descendant steps, inversions, conversions or raw-bit constructions they came about. Equal indices hash equally.",
  ["inputs", "histories"], "all pairs of indices reachable by any history of public operations",
  "Equality is only ever asserted between two indices built along one particular path each; stale bits below the depth show up only for particular histories.",
  [I2, I3], [("PartialEq/Hash of the storages", I2 + ", " + I3), ("every operation that builds a storage keeps unused bits zero", I2 + ", " + I3)],
  [("unused bits", "bits and bytes that belong to no level below the depth are zero, the byte vector has exactly ceil(depth*D/8) bytes", I2 + ", " + I3)], ["==", "Hash"])
p("C09", "Ancestors are exactly the cell prefixes",
  "The ancestor of an index by g generations exists exactly when g does not exceed its depth, and is then the index with the first depth minus g cells and nothing else. The parent is the ancestor by one generation (none for the root), and the index at a given smaller or equal depth is the corresponding prefix while a larger depth gives none. The original index is unchanged.",
  ["inputs"], "all static and dynamic indices, any depth, all generation counts",
  "The tests use one to three generations from one or two depths; the trimming depends on both depths modulo 4 or 8.",
  [I2, I3, MO], [("VariableDepthStorage::ancestor", I2 + ", " + I3), ("parent, with_depth", MO)], [], ["ancestor", "parent", "with_depth"])
p("C10", "Descendants append exactly the given cells",
  "The descendant of an index along a list of cells is the index holding the original cells followed by the given ones, and nothing else; the child is the descendant along one cell. It is none exactly when the combined depth exceeds what the static type can hold, and never none for a dynamic index. Taking the ancestor by the number of appended cells returns the original index.",
  ["inputs", "histories"], "all static and dynamic indices, any depth, all cell lists",
  "The tests append one to three cells at one or two depths per type.",
  [I2, I3, MO], [("VariableDepthStorage::descendant", I2 + ", " + I3), ("child", MO)], [], ["descendant", "child"])
p("C11", "Conversions between storage flavours keep depth and cells",
  "Converting an index between fixed-depth, static and dynamic storage keeps every cell at its level and the depth, except that a conversion to fixed-depth storage fills the missing deeper levels with zero cells. A dynamic index converts to a fixed-depth or static type exactly when its depth does not exceed that type's maximum, and fails with the depth-limit error otherwise.",
  ["inputs"], "all indices of every flavour, width and depth, 2D and 3D",
  "The tests convert one random index at full depth, half depth and one odd depth per width; shallow dynamic indices lost their cells in a fixed-depth index unnoticed.",
  [I2, I3], [("From/TryFrom between MortonIndex2D/3D storages", I2 + ", " + I3)], [], ["from", "try_from", "into"])
p("C12", "String names of indices",
  "The cell naming of an index is the string of its cell numbers from the root down, one decimal digit per level; the rooted naming is that string preceded by a single r, so the root is named r. The grid naming is the depth followed by each grid coordinate in the default ordering, in decimal and separated by dashes. A displayable slice prints the names of its elements in order, separated by a comma and a blank, inside square brackets, and compares like the slice itself.",
  ["inputs"], "all indices of every flavour, width and depth, all namings, all slices",
  "No test checks any name; the examples show three constant ones.",
  [I2, I3, MO, HE], [("MortonIndex::to_string", I2 + ", " + I3), ("DisplayableMortonIndexSlice", HE)], [], ["to_string", "make_displayable"])
p("C13", "Inversion reverses the cells",
  "The inverse of an index has the same depth and the same cells in reverse level order, and inverting twice gives the original index. The original index is unchanged.",
  ["inputs"], "all indices of every flavour, width and depth, 2D and 3D",
  RND + ".",
  [MO], [("MortonIndex::inverted", MO)], [], ["inverted"])
p("C14", "Bit ranges of integers",
  "Reading a bit range of an unsigned integer of any width returns exactly the bits of that range shifted down to bit 0, also for empty and full-width ranges. Writing a bit range with a value that fits it changes exactly the bits of that range to the value and no other bit.",
  ["inputs"], "all values, all ranges within the width, u8 to u128 and usize",
  "A dozen constant ranges on u8 and u16 only; the wider types and ranges touching both ends are untested.",
  [NU], [("impl_bits! get_bits/set_bits and the usize variants", NU)], [], ["Bits::get_bits", "Bits::set_bits", "get_bits_as_usize", "set_bits_from_usize"])
p("C15", "Bit ranges of byte vectors",
  "A byte vector read as one little-endian bit string behaves like an integer of that width: reading a range returns exactly those bits (as bytes, or as a usize when they fit), with the excess bits of the last byte zero. Writing a range from a byte string or a usize changes exactly the bits of that range to the leading bits of the source and no other bit, never changes the length, and never touches memory outside the vector or the source.",
  ["inputs"], "byte vectors of any length and all ranges within them",
  "Constant ranges on one four-byte vector, most of them byte aligned or written into zeroes.",
  [NU], [("set_vec_u8_bits, Bits for Vec<u8>", NU)], [], ["Bits for Vec<u8>"])
p("C16", "Bit spreading interleaves without loss",
  "The zero-spreading helpers take the documented number of low input bits (4 of a u8, 8 of a u16, all 8 of a u8, 21 of a u32) and put bit i at position 2i (before), 2i+1 (behind) or 3i (two zeroes); every other result bit is zero and higher input bits are ignored.",
  ["inputs"], "all inputs of each helper",
  "A few runs of ones; single high bits and mixed patterns of the 21-bit variant are untested.",
  [NU], [("add_zero_*_every_bit_*, add_two_zeroes_before_every_bit_*", NU)], [], ["number::add_*"])
p("C17", "Alignment gives the least multiple",
  "Aligning a value to a non-zero alignment returns the smallest multiple of the alignment that is not below the value, whenever that multiple is representable in the type, without overflowing on the way. Aligning to zero returns the value unchanged.",
  ["inputs"], "all values and alignments of u8, u16, u32, u64, u128 and usize",
  "There is no test for it.",
  [AL], [("Alignable::align_to", AL)], [], ["align_to"])
p("C18", "Cell numbers and orderings are consistent bijections",
  "Each cell converts to its number and back, and numbers outside the cell range are rejected with the cell-range error. Each ordering maps the cells one-to-one onto the corners of the unit square or cube as documented (axis named first takes bit 0 of the cell number, and so on), the bit shifts an octant ordering reports agree with that mapping, and the default orderings are XY and XYZ.",
  ["inputs"], "all usize numbers, all cells, all orderings",
  "The 3D test compares the two implementations with each other, so a common mistake, a wrong default or a wrong rejection is not seen.",
  [D2, D3], [("Quadrant, Octant, QuadrantOrdering, OctantOrdering", D2 + ", " + D3)], [], ["to_index", "get_bit_shifts_for_xyz", "try_from", "index"])
p("C19", "Iterating the cells of an index",
  "Iterating over an index yields exactly its cells from the root down, one per level, and then ends and stays ended. The iteration agrees with reading the levels one by one and leaves the index unchanged.",
  ["inputs"], "all indices of every flavour, width and depth, 2D and 3D",
  RND + ", and never call the iterator past its end.",
  [IM, I2, I3], [("CellIter::next, cells, IntoIterator", IM)], [], ["cells"])
p("C20", "Integer and byte conversions of bit storage",
  "Building an integer from bytes reads the leading bytes in the requested endianness, treats missing bytes as zero and ignores excess ones; viewing an integer as bytes gives its native bytes, so the two are inverse. The numeric conversions to and from each integer width keep the low bits that fit both widths. A byte vector built from an integer or from bytes holds exactly those bytes in native order, reversed if the other endianness was requested.",
  ["inputs"], "all values, byte strings of any length, both endiannesses, u8 to u128 and usize, byte vectors",
  "No test calls these functions directly.",
  [NU], [("Bits::from_u8_slice, as_*, from_*, as_u8_slice(_mut), size", NU)], [], ["Bits"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
