#!/usr/bin/env python3
"""Writes the Verus template (stdout): specifications, contracts, invariants and proofs; the functions themselves are //@extract
directives, filled in from /repo's current source by ../extract."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
W = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 64)]

def part(name): return open(os.path.join(HERE, name)).read()
def sub(t, **kw):
    for k, v in kw.items(): t = t.replace("«" + k + "»", str(v))
    return t

def frombytes(t, b):
    if t == "usize": return "//@at start\n    broadcast use {super::cast_u64_usize::cast, int_u64::b_link};"
    e = "Endianness::LittleEndian" if t == "u8" else "endianness"
    return "//@at end\n    proof { byte_bits(r); let o = ordered(bytes@, %d, %s); assert(r.ne_bytes().len() == %d); assert forall|k: int| 0 <= k < %d implies #[trigger] r.ne_bytes()[k] == o[k] by { if %s is LittleEndian { assert(o[k] == byte_at(bytes@, k)); } else { assert(o[k] == byte_at(bytes@, %d - 1 - k)); } } assert(r.ne_bytes() =~= o); }" % (b // 8, e, b // 8, b // 8, e, b // 8)
NAMES = ["Zero", "One", "Two", "Three", "Four", "Five", "Six", "Seven"]
def store(d):
    cell, dim, n = ("Quadrant", "Dim2D", 4) if d == 2 else ("Octant", "Dim3D", 8)
    names = NAMES[:n]
    t = part("store.rs")
    st = "\n".join(sub(part("storage_type.rs"), ST=x, GEN=g, BASE=base, MAXSPEC=ms) for x, g, base, ms in (
        ("FixedDepthStorage", "B: FixedStorageType", "B::BITS as int", "Some((B::BITS / «D») as usize)"),
        ("StaticStorage", "B: FixedStorageType", "B::BITS as int", "Some((B::BITS / «D») as usize)")))
    fixed = "\n".join(sub(part("fixed_impl.rs"), T=t_, N=b) for t_, b in W)
    t = t.replace("«STORAGETYPES»", st + part("storage_type_dyn.rs")).replace("«FIXEDIMPLS»", fixed).replace("«STORAGES»", part("storages.rs") + part("index.rs") + part("order.rs") + part("equal.rs") + part("dims%d.rs" % d) + part("grid.rs") + part("place.rs") + part("place%d.rs" % d) + part("names.rs") + part("props.rs"))
    return sub(t, D=d, VAR=cell.lower() + 's', VARONE=cell.lower(), CELL=cell, DIM=dim, CELLS=n, ARMS=", ".join("%s::%s => %d" % (cell, x, i) for i, x in enumerate(names)),
        OFNUM=" else ".join(("if n == %d " % i if i + 1 < n else "") + "{ %s::%s }" % (cell, x) for i, x in enumerate(names)),
        CSUM=" + ".join("b2i(b.bit(s + %d), %d)" % (j, 1 << j) for j in range(d)),
        BVSUM=" + ".join("(if (v >> %d) & 1 == 1 { %dusize } else { 0usize })" % (j, 1 << j) for j in range(d)),
        HIGHEST=" else ".join(("if cbit(a, %d) != cbit(b, %d) " % (j, j) if j else "") + "{ %d }" % j for j in reversed(range(d))),
        PLAIN="XY" if d == 2 else "XYZ", COORDS="".join(" + seq!['-'] + dec(coord(self.storage, %d) as nat)" % a for a in range(d)), PLACE="c04" if d == 2 else "c05",
        CBITS=" ".join("assert(cbit(cell(s, l), %d) == cbit(cell(t, m), %d));" % (j, j) for j in range(d)),
        BVONE="v < 64",
        TBSUM=" + ".join("b2i(int_usize::tb(v, %d), %d)" % (j, 1 << j) for j in range(d)))
def template():
    o = [part("head.rs")]
    n = part("number_int.rs")
    ints = "\n".join(sub(n, T=t, N=b, MAX="0x" + "f" * (b // 4) + t, FROMBYTES=frombytes(t, b), B="" if t == "u8" else "") for t, b in W)
    casts = "\n".join(sub(part("cast.rs"), S=s, T=t, NS=a, NT=b) for s, a in W for t, b in W)
    o.append(part("number.rs").replace("«INTS»", ints + casts))
    o.append(part("name.rs"))
    o.append(part("spread.rs"))
    if len(sys.argv) < 2 or sys.argv[1] == "C17": o.append(part("align.rs").replace("«ALIGNS»", "\n".join(sub(part("align_int.rs"), T=t, MAX="0x" + "f" * (b // 4) + t) for t, b in W)))
    prop = sys.argv[1] if len(sys.argv) > 1 else ""
    for d in DIMS.get(prop, (2, 3)): o.append(store(d))
    o.append("} // verus!\nfn main() {}\n")
    return "\n".join(o)
# what a property's proofs need: the number part only, one dimension, or everything
DIMS = {"C04": (2,), "C05": (3,), "C14": (), "C15": (), "C16": (), "C17": (), "C20": (), "number": ()}
NONE = ()
# each function and lemma gets a solver of its own: what happens in one cannot disturb another
import re
def own(t): return re.sub(r"^((?:pub )?(?:broadcast )?proof fn (?![^\n]*by\(bit_vector\)))", r"#[verifier::spinoff_prover] \1", t, flags=re.M)
if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in NONE: sys.stdout.write(own(template()))
