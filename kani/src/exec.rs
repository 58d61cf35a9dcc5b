//! Executed contracts (native only, bounded): the same contracts evaluated on the real code for values drawn at random, with
//! depths, lengths and histories beyond what the model-checked stand-ins cover. They find failing inputs quickly, and stand in
//! (labelled bounded) where an obligation stays undecided. They are never counted as proved.
use crate::idx::*;
use crate::nd;
use morton_index::dimensions::*;
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::number::*;
use morton_index::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::result::Result;

type Cells = Vec<usize>;
pub const DEEP: usize = 150;
/// any depth: for dynamic indices mostly small, sometimes far beyond any machine word
fn depth<T: Idx>() -> usize { if T::FIXED { T::CAP } else if T::DYN { match nd::below(5) { 0 => nd::below(DEEP), 1 => nd::below(70), 2 => far(), _ => nd::below(14) } } else { nd::below(T::CAP + 1) } }
/// depths next to the places where narrow arithmetic would wrap, now and then
fn far() -> usize {
    let near = |v: &[usize]| { let b = v[nd::below(v.len())]; b + nd::below(6) - 3 };
    match nd::below(96) { 40 => near(&[16384, 21845, 32768, 8192, 10922]), 41..=43 => near(&[1024, 1365, 2048, 2730, 4096]), 44..=59 => near(&[128, 170, 256, 341, 512, 683]), _ => nd::below(33) }
}
/// a number of levels greater than the limit `cap`
fn beyond(cap: usize) -> usize { match nd::below(4) { 0 => cap + 1, 1 => cap + 1 + nd::below(100), 2 => 256 * (1 + nd::below(300)) + nd::below(cap + 1), _ => nd::usize().max(cap + 1) } }
fn some_cells<T: Idx>(n: usize) -> Cells { let mode = nd::below(6); (0..n).map(|_| match mode { 0 => 0, 1 => (1 << T::D) - 1, _ => nd::below(1 << T::D) }).collect() }
fn as_cells<T: Idx>(c: &[usize]) -> Vec<T::C> { c.iter().map(|x| T::cell(*x)).collect() }
fn make<T: Idx>(c: &[usize]) -> T { let mut m = T::zero(c.len()); for (l, x) in c.iter().enumerate() { m.set(l, *x) } m }
fn any<T: Idx>() -> (T, Cells) { let c = some_cells::<T>(depth::<T>()); (make(&c), c) }
fn expect<T: Idx>(m: &T, c: &[usize]) { assert!(m.depth() == c.len(), "depth {} instead of {}", m.depth(), c.len()); for l in 0..c.len() { assert!(m.get(l) == c[l], "cell at level {} of {:?}", l, c) } }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
fn gcell<T: Idx>(c: usize) -> <<T as MortonIndex>::Dimension as Dimension>::Cell { match <<T as MortonIndex>::Dimension as Dimension>::Cell::try_from(c) { Ok(c) => c, Err(_) => panic!() } }

macro_rules! over {
    ($f:ident; $($t:ty),*) => { { let fs: &[fn()] = &[ $( $f::<$t> ),* ]; fs[nd::below(fs.len())]() } };
}
macro_rules! fixed { ($f:ident) => { over!($f; F2<u8>, F2<u16>, F2<u32>, F2<u64>, F2<u128>, F2<usize>, F3<u8>, F3<u16>, F3<u32>, F3<u64>, F3<u128>, F3<usize>) } }
macro_rules! stat { ($f:ident) => { over!($f; S2<u8>, S2<u16>, S2<u32>, S2<u64>, S2<u128>, S2<usize>, S3<u8>, S3<u16>, S3<u32>, S3<u64>, S3<u128>, S3<usize>) } }
macro_rules! dynamic { ($f:ident) => { over!($f; Y2, Y3) } }
macro_rules! exec {
    ($( $p:ident { $( $n:ident $b:block )* } )*) => { $( pub mod $p { use super::*; $( pub fn $n() { $b; } )* pub const LIST: &[(&str, fn(), bool)] = &[ $( (concat!(module_path!(), "::", stringify!($n)), $n as fn(), false) ),* ]; } )* };
}

fn access<T: Idx>() {
    let (mut m, mut c) = any::<T>();
    expect(&m, &c);
    for _ in 0..6 {
        if c.is_empty() { break }
        let (l, x) = (nd::below(c.len()), nd::below(1 << T::D));
        m.set(l, x);
        c[l] = x;
        expect(&m, &c);
    }
    let l = match nd::below(4) { 0 => c.len(), 1 => beyond(c.len()), 2 => usize::MAX, _ => c.len() + nd::below(9) };
    if l >= c.len() {
        assert!(panics(|| { m.get(l); }), "reading level {} of depth {} does not panic", l, c.len());
        assert!(panics(|| { m.set(l, 1); }), "writing level {} of depth {} does not panic", l, c.len());
        expect(&m, &c);
    }
}
fn from_cells<T: Idx>() {
    let n = if T::DYN { depth::<T>() } else if nd::below(8) == 0 { beyond(T::CAP).min(1000) } else { nd::below(T::CAP + 6) };
    let c = some_cells::<T>(n);
    let r = T::slice(&as_cells::<T>(&c));
    if n > T::CAP && !T::DYN { assert!(is_limit(r, T::CAP), "limit error expected for {} cells", n); return }
    let mut c = c;
    if T::FIXED { c.resize(T::CAP, 0) }
    let r = match r { Ok(r) => r, Err(_) => panic!("cells within the limit were rejected") };
    expect(&r, &c);
    let d = depth::<T>();
    expect(&T::zero(d), &vec![0; d]);
}
/// construction from an array; none for lengths that are not among the instantiated ones
trait Arr: Idx { const LENGTHS: &'static [usize]; fn array(c: &[usize]) -> Option<Result<Self, Error>>; }
macro_rules! arr_types { ($cell:ident, $f:ident; $($t:ty),*; $ns:tt) => { $( arr_type!($cell, $f; $t; $ns); )* } }
macro_rules! arr_type { ($cell:ident, $f:ident; $t:ty; ($($n:literal)*)) => { impl Arr for $t {
    const LENGTHS: &'static [usize] = &[$($n),*];
    fn array(c: &[usize]) -> Option<Result<Self, Error>> { match c.len() { $( $n => { let mut a = [$f(0); $n]; for (i, x) in c.iter().enumerate() { a[i] = $f(*x) } Some(<$t>::try_from(a)) } )* _ => None } }
} } }
arr_types!(Quadrant, quad; F2<u8>, F2<u16>, F2<u32>, F2<u64>, F2<u128>, F2<usize>, S2<u8>, S2<u16>, S2<u32>, S2<u64>, S2<u128>, S2<usize>, Y2; (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 24 31 32 33 48 63 64 65 66 128 255 256 257 258));
arr_types!(Octant, oct; F3<u8>, F3<u16>, F3<u32>, F3<u64>, F3<u128>, F3<usize>, S3<u8>, S3<u16>, S3<u32>, S3<u64>, S3<u128>, S3<usize>, Y3; (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 21 22 23 24 32 40 41 42 43 44 64 128 255 256 257 258));
fn from_array<T: Arr>() { let n = T::LENGTHS[nd::below(T::LENGTHS.len())]; let c = some_cells::<T>(n); arr::<T>(T::array(&c).unwrap(), c) }
fn arr<T: Idx>(r: Result<T, Error>, mut c: Cells) {
    if c.len() > T::CAP && !T::DYN { assert!(is_limit(r, T::CAP)); return }
    if T::FIXED { c.resize(T::CAP, 0) }
    expect(&match r { Ok(r) => r, Err(_) => panic!("rejected") }, &c);
}
/// cells of the grid position `v` (one value per axis) at depth `d`; `b` the bit of each axis in a cell
fn grid_cells(v: &[usize], b: &[usize], d: usize) -> Cells { (0..d).map(|l| { let s = d - 1 - l; v.iter().zip(b).map(|(v, b)| if s < 64 { ((v >> s) & 1) << b } else { 0 }).sum() }).collect() }
fn cells_grid(c: &[usize], b: &[usize]) -> Vec<usize> { b.iter().map(|b| { let mut v = 0usize; for x in c { v = (v << 1) | ((x >> b) & 1) } v }).collect() }
fn coord() -> usize { match nd::below(3) { 0 => nd::below(64), _ => nd::usize() } }
trait Grid2: Idx + MortonIndex<Dimension = Dim2D> { fn from(g: Vector2<usize>, d: usize, o: QuadrantOrdering) -> Result<Self, Error>; }
trait Grid3: Idx + MortonIndex<Dimension = Dim3D> { fn from(g: Vector3<usize>, d: usize, o: OctantOrdering) -> Result<Self, Error>; }
macro_rules! grids { ($($b:ty)*) => { $(
    impl Grid2 for F2<$b> { fn from(g: Vector2<usize>, _: usize, o: QuadrantOrdering) -> Result<Self, Error> { Ok(Self::from_grid_index(g, o)) } }
    impl Grid2 for S2<$b> { fn from(g: Vector2<usize>, d: usize, o: QuadrantOrdering) -> Result<Self, Error> { Self::from_grid_index(g, d, o) } }
    impl Grid3 for F3<$b> { fn from(g: Vector3<usize>, _: usize, o: OctantOrdering) -> Result<Self, Error> { Ok(Self::from_grid_index(g, o)) } }
    impl Grid3 for S3<$b> { fn from(g: Vector3<usize>, d: usize, o: OctantOrdering) -> Result<Self, Error> { Self::from_grid_index(g, d, o) } }
)* } }
grids! { u8 u16 u32 u64 u128 usize }
impl Grid2 for Y2 { fn from(g: Vector2<usize>, d: usize, o: QuadrantOrdering) -> Result<Self, Error> { Ok(Self::from_grid_index(g, d, o)) } }
impl Grid3 for Y3 { fn from(g: Vector3<usize>, d: usize, o: OctantOrdering) -> Result<Self, Error> { Ok(Self::from_grid_index(g, d, o)) } }
/// deepest grid the constructor accepts (dynamic indices: half the bits of a usize)
fn grid_limit<T: Idx>() -> usize { if T::DYN { 32 } else { T::CAP } }
fn grid2<T: Grid2>() {
    let d = if T::FIXED { T::CAP } else { nd::below(grid_limit::<T>() + 1) };
    let (g, k) = (Vector2::new(coord(), coord()), nd::below(2));
    let m = match T::from(g, d, ord2(k).0) { Ok(m) => m, Err(_) => panic!("depth {} rejected", d) };
    expect(&m, &grid_cells(&[g.x, g.y], &ord2(k).1, d));
    if !T::FIXED && !T::DYN { let e = beyond(T::CAP); assert!(is_limit(T::from(g, e, ord2(k).0), T::CAP), "depth {} beyond the limit accepted", e); }
}
fn grid3<T: Grid3>() {
    let d = if T::FIXED { T::CAP } else { nd::below(grid_limit::<T>() + 1) };
    let (g, k) = (Vector3::new(coord(), coord(), coord()), nd::below(6));
    let m = match T::from(g, d, ord3(k).0) { Ok(m) => m, Err(_) => panic!("depth {} rejected", d) };
    expect(&m, &grid_cells(&[g.x, g.y, g.z], &ord3(k).1, d));
    if !T::FIXED && !T::DYN { let e = beyond(T::CAP); assert!(is_limit(T::from(g, e, ord3(k).0), T::CAP), "depth {} beyond the limit accepted", e); }
}
fn low(v: usize, d: usize) -> usize { if d >= 64 { v } else { v & ((1 << d) - 1) } }
fn pos2<T: Grid2>() {
    let d = if T::DYN { nd::below(65) } else { depth::<T>() };
    let c = some_cells::<T>(d);
    let (m, k): (T, usize) = (make(&c), nd::below(2));
    let g = m.to_grid_index(ord2(k).0);
    let s = cells_grid(&c, &ord2(k).1);
    assert!(g.x == s[0] && g.y == s[1], "position of {:?}", c);
    if d <= grid_limit::<T>() {
        assert!(T::from(g, d, ord2(k).0).unwrap() == m, "index -> position -> index");
        let g = Vector2::new(coord(), coord());
        let h = T::from(g, d, ord2(k).0).unwrap().to_grid_index(ord2(k).0);
        assert!(h.x == low(g.x, d) && h.y == low(g.y, d), "position -> index -> position");
    }
}
fn pos3<T: Grid3>() {
    let d = if T::DYN { nd::below(65) } else { depth::<T>() };
    let c = some_cells::<T>(d);
    let (m, k): (T, usize) = (make(&c), nd::below(6));
    let g = m.to_grid_index(ord3(k).0);
    let s = cells_grid(&c, &ord3(k).1);
    assert!(g.x == s[0] && g.y == s[1] && g.z == s[2], "position of {:?}", c);
    if d <= grid_limit::<T>() {
        assert!(T::from(g, d, ord3(k).0).unwrap() == m, "index -> position -> index");
        let g = Vector3::new(coord(), coord(), coord());
        let h = T::from(g, d, ord3(k).0).unwrap().to_grid_index(ord3(k).0);
        assert!(h.x == low(g.x, d) && h.y == low(g.y, d) && h.z == low(g.z, d), "position -> index -> position");
    }
}
macro_rules! over2 { ($f:ident) => { over!($f; F2<u8>, F2<u16>, F2<u32>, F2<u64>, F2<u128>, F2<usize>, S2<u8>, S2<u16>, S2<u32>, S2<u64>, S2<u128>, S2<usize>, Y2) } }
macro_rules! over3 { ($f:ident) => { over!($f; F3<u8>, F3<u16>, F3<u32>, F3<u64>, F3<u128>, F3<usize>, S3<u8>, S3<u16>, S3<u32>, S3<u64>, S3<u128>, S3<usize>, Y3) } }
/// two related cell lists: with a common prefix
fn pair<T: Idx>() -> (Cells, Cells) {
    let a = some_cells::<T>(depth::<T>());
    let mut b = some_cells::<T>(depth::<T>());
    let k = match nd::below(3) { 0 => 0, 1 => a.len().min(b.len()), _ => nd::below(a.len().min(b.len()) + 1) };
    b[..k].copy_from_slice(&a[..k]);
    if nd::below(6) == 0 { b = a.clone() }
    (a, b)
}
fn order<T: Idx>() {
    let (a, b) = pair::<T>();
    let (x, y): (T, T) = (make(&a), make(&b));
    let s = a.cmp(&b); // lexicographic, a prefix first
    assert!(x.cmp(&y) == s, "cmp {:?} {:?}", a, b);
    assert!(y.cmp(&x) == s.reverse(), "cmp reversed");
    assert!(x.partial_cmp(&y) == Some(s), "partial_cmp");
    assert!((x == y) == (s == Ordering::Equal), "agrees with equality");
    assert!((x < y) == (s == Ordering::Less) && (x > y) == (s == Ordering::Greater) && (x <= y) == (s != Ordering::Greater) && (x >= y) == (s != Ordering::Less), "operators");
    let (z, _) = any::<T>();
    let mut v = [x, y, z];
    v.sort();
    assert!(v[0] <= v[1] && v[1] <= v[2] && v[0] <= v[2], "sorted");
}
trait Conv: Idx { type S: Arr + VariableDepthMortonIndex; type F: Arr; type Y: Arr + VariableDepthMortonIndex; fn s(self) -> Option<Self::S>; fn f(self) -> Option<Self::F>; fn y(self) -> Self::Y; }
macro_rules! conv { ($f:ident $s:ident $y:ty; $($b:ty)*) => { $(
    impl Conv for $f<$b> { type S = $s<$b>; type F = $f<$b>; type Y = $y; fn s(self) -> Option<Self::S> { Some(self.into()) } fn f(self) -> Option<Self::F> { Some(self) } fn y(self) -> $y { self.into() } }
    impl Conv for $s<$b> { type S = $s<$b>; type F = $f<$b>; type Y = $y; fn s(self) -> Option<Self::S> { Some(self) } fn f(self) -> Option<Self::F> { Some(self.into()) } fn y(self) -> $y { self.into() } }
)* } }
conv! { F2 S2 Y2; u8 u16 u32 u64 u128 usize }
conv! { F3 S3 Y3; u8 u16 u32 u64 u128 usize }
fn convert<T: Conv>() {
    let (m, c) = any::<T>();
    let mut full = c.clone();
    full.resize(T::CAP, 0);
    let f = m.clone().f().unwrap();
    expect(&f, &full);
    assert!(f == make(&full), "fixed result equals the freshly built one");
    let s = m.clone().s().unwrap();
    expect(&s, &c);
    assert!(s == make(&c), "static result equals the freshly built one");
    let y = m.y();
    expect(&y, &c);
    assert!(y == make(&c), "dynamic result equals the freshly built one");
}
macro_rules! from_dyn { ($f:ident $s:ident $y:ty; $($b:ty)*) => { { let fs: &[fn()] = &[ $( || {
    let c = some_cells::<$y>(if nd::below(8) == 0 { beyond(<$f<$b> as Idx>::CAP).min(1000) } else { nd::below(<$f<$b> as Idx>::CAP + 6) });
    let m: $y = make(&c);
    let (f, s) = (<$f<$b>>::try_from(m.clone()), <$s<$b>>::try_from(m));
    const CAP: usize = <$f<$b> as Idx>::CAP;
    if c.len() > CAP { assert!(is_limit(f, CAP) && is_limit(s, CAP), "{} levels accepted", c.len()) } else {
        let mut full = c.clone();
        full.resize(CAP, 0);
        let (f, s) = (f.unwrap(), s.unwrap());
        expect(&f, &full); expect(&s, &c);
        assert!(f == make(&full) && s == make(&c), "equals the freshly built one");
    }
} ),* ]; fs[nd::below(fs.len())]() } } }
fn ancestors<T: Idx + VariableDepthMortonIndex>() {
    let (m, c) = any::<T>();
    let g = match nd::below(4) { 0 => 1 + nd::below(3), 1 => beyond(c.len()), _ => 1 + nd::below(c.len() + 2) };
    match m.ancestor(NonZeroUsize::new(g).unwrap()) {
        Some(a) => { assert!(g <= c.len(), "ancestor by {} of depth {}", g, c.len()); expect(&a, &c[..c.len() - g]); assert!(a == make(&c[..c.len() - g]), "equals the freshly built one") }
        None => assert!(g > c.len(), "no ancestor by {} of depth {}", g, c.len()),
    }
    match m.parent() { Some(a) => { assert!(c.len() > 0); expect(&a, &c[..c.len() - 1]) } None => assert!(c.is_empty(), "no parent") }
    let w = match nd::below(4) { 0 => beyond(c.len()), 1 => c.len(), _ => nd::below(c.len() + 3) };
    match m.with_depth(w) { Some(a) => { assert!(w <= c.len()); expect(&a, &c[..w]); assert!(a == make(&c[..w])) } None => assert!(w > c.len(), "with_depth({}) of depth {}", w, c.len()) }
    expect(&m, &c);
}
fn descendants<T: Idx + VariableDepthMortonIndex>() {
    let (m, mut c) = any::<T>();
    let o = c.clone();
    let e = some_cells::<T>(if T::DYN { depth::<T>() } else if nd::below(8) == 0 { beyond(T::CAP).min(1000) } else { nd::below(T::CAP + 6) });
    let cells: Vec<_> = e.iter().map(|x| gcell::<T>(*x)).collect();
    c.extend(&e);
    match m.descendant(&cells) {
        Some(d) => {
            assert!(T::DYN || c.len() <= T::CAP, "{} levels", c.len());
            expect(&d, &c);
            assert!(d == make(&c), "equals the freshly built one");
            if !e.is_empty() { assert!(d.ancestor(NonZeroUsize::new(e.len()).unwrap()).unwrap() == m, "ancestor of the descendant") }
        }
        None => assert!(!T::DYN && c.len() > T::CAP, "none at {} levels", c.len()),
    }
    let x = nd::below(1 << T::D);
    match m.child(gcell::<T>(x)) { Some(d) => { let mut c = o.clone(); c.push(x); expect(&d, &c) } None => assert!(!T::DYN && o.len() == T::CAP, "no child") }
    expect(&m, &o);
}
/// reach the same depth and cells along different histories
fn histories<T: Arr + VariableDepthMortonIndex>() {
    let (mut m, mut c) = any::<T>();
    for _ in 0..nd::below(8) {
        match nd::below(5) {
            0 => { if !c.is_empty() { let (l, x) = (nd::below(c.len()), nd::below(1 << T::D)); m.set(l, x); c[l] = x } }
            1 => { let g = nd::below(c.len() + 1); if g > 0 { m = m.ancestor(NonZeroUsize::new(g).unwrap()).unwrap(); c.truncate(c.len() - g) } }
            2 => { let e = some_cells::<T>(nd::below(7)); if T::DYN || c.len() + e.len() <= T::CAP { m = m.descendant(&e.iter().map(|x| gcell::<T>(*x)).collect::<Vec<_>>()).unwrap(); c.extend(e) } }
            3 => { m = m.inverted(); c.reverse() }
            _ => { let w = nd::below(c.len() + 1); m = m.with_depth(w).unwrap(); c.truncate(w) }
        }
        same(&m, &c);
    }
}
fn same<T: Arr>(m: &T, c: &[usize]) {
    expect(m, c);
    if let Some(a) = T::array(c) { let a = a.unwrap(); assert!(*m == a && a == *m && hash(m) == hash(&a), "same depth and cells as the index made from an array, but not equal: {:?}", c) }
    let (f, g): (T, T) = (make(c), T::slice(&as_cells::<T>(c)).unwrap());
    assert!(*m == f && f == *m && *m == g && g == f, "same depth and cells, but not equal: {:?}", c);
    assert!(hash(m) == hash(&f) && hash(m) == hash(&g), "equal, but different hashes");
    assert!(!(*m != f));
}
fn unequal<T: Idx>() {
    let (a, b) = pair::<T>();
    let (x, y): (T, T) = (make(&a), make(&b));
    assert!((x == y) == (a == b) && (x != y) == (a != b), "{:?} {:?}", a, b);
    if a == b { assert!(hash(&x) == hash(&y)) }
}
fn fixed_histories<T: Arr>() { let (mut m, mut c) = any::<T>(); for _ in 0..nd::below(6) { if nd::bool() { let (l, x) = (nd::below(c.len()), nd::below(1 << T::D)); m.set(l, x); c[l] = x } else { m = m.inverted(); c.reverse() } same(&m, &c) } }
fn converted<T: Conv + Arr>() {
    let (m, c) = any::<T>();
    let mut full = c.clone();
    full.resize(T::CAP, 0);
    same(&m.clone().f().unwrap(), &full);
    same(&m.clone().s().unwrap(), &c);
    same(&m.y(), &c);
}
fn gridded2<T: Grid2 + Arr>() { let d = if T::FIXED { T::CAP } else { nd::below(grid_limit::<T>() + 1) }; let m = T::from(Vector2::new(coord(), coord()), d, ord2(nd::below(2)).0).unwrap(); let c: Cells = (0..d).map(|l| m.get(l)).collect(); same(&m, &c) }
fn gridded3<T: Grid3 + Arr>() { let d = if T::FIXED { T::CAP } else { nd::below(grid_limit::<T>() + 1) }; let m = T::from(Vector3::new(coord(), coord(), coord()), d, ord3(nd::below(6)).0).unwrap(); let c: Cells = (0..d).map(|l| m.get(l)).collect(); same(&m, &c) }
macro_rules! raws { ($($b:ident)*) => { { let fs: &[fn()] = &[ $( || {
    let r = nd::$b();
    let m = F3::<$b>::from_raw_index(r);
    let c: Cells = (0..<F3<$b> as Idx>::CAP).map(|l| m.get(l)).collect();
    for l in 0..c.len() { assert!(c[l] == (r >> (<$b>::BITS as usize - 3 * (l + 1))) as usize & 7, "raw cell") }
    same(&m, &c);
    let d = nd::below(<S3<$b> as Idx>::CAP + 1);
    let m = S3::<$b>::from_raw_index(r, d as u8);
    let c: Cells = (0..d).map(|l| m.get(l)).collect();
    for l in 0..d { assert!(c[l] == (r >> (<$b>::BITS as usize - 3 * (l + 1))) as usize & 7, "raw cell") }
    same(&m, &c);
} ),* ]; fs[nd::below(fs.len())]() } } }
fn digits(c: &[usize]) -> String { let mut s = String::new(); for x in c { s.push((b'0' + *x as u8) as char) } s }
fn grid_name<T: Idx>(c: &[usize]) -> String { let b: Vec<usize> = (0..T::D).collect(); let mut s = format!("{}", c.len()); for v in cells_grid(c, &b) { s.push('-'); s.push_str(&v.to_string()) } s }
fn named<T: Idx>() -> (T, Cells) { let d = if T::DYN { nd::below(65) } else { depth::<T>() }; let c = some_cells::<T>(d); (make(&c), c) }
fn names<T: Idx>() {
    let (m, c) = named::<T>();
    assert!(m.to_string(MortonIndexNaming::CellConcatenation) == digits(&c), "cells of {:?}", c);
    assert!(m.to_string(MortonIndexNaming::CellConcatenationWithRoot) == format!("r{}", digits(&c)), "rooted name of {:?}", c);
    assert!(m.to_string(MortonIndexNaming::GridIndex) == grid_name::<T>(&c), "grid name of {:?}", c);
    if T::DYN { let (m, c) = any::<T>(); assert!(m.to_string(MortonIndexNaming::CellConcatenation) == digits(&c) && m.to_string(MortonIndexNaming::CellConcatenationWithRoot) == format!("r{}", digits(&c)), "name of a deep index") }
}
fn displayed<T: Idx>() {
    let k = nd::below(3);
    let naming = || match k { 0 => MortonIndexNaming::CellConcatenation, 1 => MortonIndexNaming::CellConcatenationWithRoot, _ => MortonIndexNaming::GridIndex };
    let v: Vec<(T, Cells)> = (0..nd::below(5)).map(|_| named::<T>()).collect();
    let w: Vec<(T, Cells)> = if nd::below(3) == 0 { v.clone() } else { (0..nd::below(5)).map(|_| named::<T>()).collect() };
    let n: Vec<String> = v.iter().map(|(_, c)| match k { 0 => digits(c), 1 => format!("r{}", digits(c)), _ => grid_name::<T>(c) }).collect();
    let (x, y): (Vec<T>, Vec<T>) = (v.iter().map(|p| p.0.clone()).collect(), w.iter().map(|p| p.0.clone()).collect());
    let (a, b) = (morton_index::helper::make_displayable(&x, naming()), morton_index::helper::make_displayable(&y, match nd::below(2) { 0 => naming(), _ => MortonIndexNaming::CellConcatenation }));
    assert!(format!("{}", a) == format!("[{}]", n.join(", ")), "display of {:?}", n);
    assert!((a == b) == (x == y) && a.partial_cmp(&b) == x.partial_cmp(&y) && a.cmp(&b) == x.cmp(&y), "compares like the slice");
}
fn invert<T: Idx>() { let (m, mut c) = any::<T>(); let o = c.clone(); let i = m.inverted(); c.reverse(); expect(&i, &c); assert!(i == make(&c)); assert!(i.inverted() == m, "twice"); expect(&m, &o) }
fn iterate<T: Idx>() {
    let (m, c) = any::<T>();
    let mut got = vec![];
    let mut ends = 0;
    m.next_cells(&mut |x| { match x { Some(x) => { assert!(ends == 0, "goes on after its end"); got.push(x) } None => ends += 1 } got.len() <= c.len() && ends < 4 });
    assert!(got == c && ends == 4, "cells {:?} instead of {:?}", got, c);
    expect(&m, &c);
}
/// like `nd` values, but shorter vectors are likelier
fn bytes(n: usize) -> Vec<u8> { let mode = nd::below(6); (0..n).map(|_| match mode { 0 => 0, 1 => 255, _ => nd::u8() }).collect() }
fn bit(v: &[u8], i: usize) -> bool { v[i / 8] >> (i % 8) & 1 == 1 }
fn range(bits: usize) -> (usize, usize) { let s = nd::below(bits + 1); let e = match nd::below(3) { 0 => s + nd::below((bits - s).min(9) + 1), 1 => bits, _ => s + nd::below(bits - s + 1) }; (s, e) }
fn vec_len() -> usize { match nd::below(3) { 0 => nd::below(40), _ => nd::below(6) } }
fn vec_get() {
    let v = bytes(vec_len());
    let (s, e) = range(v.len() * 8);
    let g = unsafe { v.get_bits(s..e) };
    assert!(g.len() == (e - s + 7) / 8, "length");
    for i in 0..g.len() * 8 { assert!(bit(&g, i) == (i < e - s && bit(&v, s + i)), "bit {} of {}..{} of {:?}", i, s, e, v) }
    let e = e.min(s + 64);
    let u = unsafe { v.get_bits_as_usize(s..e) };
    for i in 0..64 { assert!((u >> i & 1 == 1) == (i < e - s && bit(&v, s + i)), "usize bit {} of {}..{} of {:?}", i, s, e, v) }
}
fn vec_set() {
    let v = bytes(1 + vec_len());
    let (s, e) = range(v.len() * 8);
    if s == e { return }
    let src = bytes((e - s + 7) / 8 + nd::below(3));
    let mut y = v.clone();
    unsafe { y.set_bits(s..e, src.clone()) };
    assert!(y.len() == v.len(), "length");
    for i in 0..v.len() * 8 { assert!(bit(&y, i) == if i >= s && i < e { bit(&src, i - s) } else { bit(&v, i) }, "bit {} after writing {}..{} of {:?} from {:?}", i, s, e, v, src) }
    let e = e.min(s + 64);
    let u = nd::usize();
    let mut y = v.clone();
    unsafe { y.set_bits_from_usize(s..e, u) };
    assert!(y.len() == v.len(), "length");
    for i in 0..v.len() * 8 { assert!(bit(&y, i) == if i >= s && i < e { u >> (i - s) & 1 == 1 } else { bit(&v, i) }, "bit {} after writing {}..{} of {:?} from {:x}", i, s, e, v, u) }
}
macro_rules! aligns { ($($t:ident)*) => { { let fs: &[fn()] = &[ $( || {
    use morton_index::align::Alignable;
    let (v, a) = (nd::$t(), nd::$t());
    if a == 0 { assert!(v.align_to(a) == v); return }
    let need = if v % a == 0 { Some(v) } else { (v / a + 1).checked_mul(a) };
    if let Some(n) = need { assert!(v.align_to(a) == n, "{} aligned to {}", v, a) }
} ),* ]; fs[nd::below(fs.len())]() } } }
macro_rules! ints { ($($t:ident)*) => { { let fs: &[fn()] = &[ $( || {
    const W: usize = <$t>::BITS as usize / 8;
    let b = bytes(nd::below(W + 5));
    let mut p = b.clone();
    p.resize(W.max(b.len()), 0);
    let mut a = [0u8; W];
    a.copy_from_slice(&p[..W]);
    unsafe {
        assert!(<$t as Bits>::from_u8_slice(&b, Endianness::LittleEndian) == $t::from_le_bytes(a), "little endian {:?}", b);
        assert!(<$t as Bits>::from_u8_slice(&b, Endianness::BigEndian) == $t::from_be_bytes(a), "big endian {:?}", b);
        let v = nd::$t();
        assert!(v.as_u8_slice() == v.to_ne_bytes());
    }
} ),* ]; fs[nd::below(fs.len())]() } } }
fn vec_bytes() {
    let b = bytes(vec_len());
    let mut r = b.clone();
    r.reverse();
    unsafe {
        assert!(<Vec<u8> as Bits>::from_u8_slice(&b, Endianness::LittleEndian) == b && <Vec<u8> as Bits>::from_u8_slice(&b, Endianness::BigEndian) == r, "bytes {:?}", b);
        let mut x = b.clone();
        assert!(x.as_u8_slice() == &b[..] && x.size() == b.len());
        x.as_u8_slice_mut().copy_from_slice(&r);
        assert!(x == r);
    }
}
exec! {
    x01 { fixed { fixed!(access) } stat { stat!(access) } }
    x02 { dynamic { dynamic!(access) } }
    x03 {
        fixed { fixed!(from_cells) } stat { stat!(from_cells) } dynamic { dynamic!(from_cells) }
        array_fixed { fixed!(from_array) } array_static { stat!(from_array) } array_dynamic { dynamic!(from_array) }
    }
    x04 { all { over2!(grid2) } dynamic { grid2::<Y2>() } }
    x05 { all { over3!(grid3) } dynamic { grid3::<Y3>() } }
    x06 { two { over2!(pos2) } three { over3!(pos3) } dynamic2 { pos2::<Y2>() } dynamic3 { pos3::<Y3>() } }
    x07 { fixed { fixed!(order) } stat { stat!(order) } dynamic { dynamic!(order) } }
    x08 {
        stat { stat!(histories) } dynamic { dynamic!(histories) } fixed { fixed!(fixed_histories) }
        unequal_fixed { fixed!(unequal) } unequal_static { stat!(unequal) } unequal_dynamic { dynamic!(unequal) }
        converted_fixed { fixed!(converted) } converted_static { stat!(converted) }
        grid2 { over2!(gridded2) } grid3 { over3!(gridded3) } raw { raws!(u8 u16 u32 u64 u128 usize) }
    }
    x09 { stat { stat!(ancestors) } dynamic { dynamic!(ancestors) } }
    x10 { stat { stat!(descendants) } dynamic { dynamic!(descendants) } }
    x11 { fixed { fixed!(convert) } stat { stat!(convert) } dynamic2 { from_dyn!(F2 S2 Y2; u8 u16 u32 u64 u128 usize) } dynamic3 { from_dyn!(F3 S3 Y3; u8 u16 u32 u64 u128 usize) } }
    x12 { fixed { fixed!(names) } stat { stat!(names) } dynamic { dynamic!(names) } displayed_fixed { fixed!(displayed) } displayed_static { stat!(displayed) } displayed_dynamic { dynamic!(displayed) } }
    x13 { fixed { fixed!(invert) } stat { stat!(invert) } dynamic { dynamic!(invert) } }
    x15 { get { vec_get() } set { vec_set() } }
    x17 { align { aligns!(u8 u16 u32 u64 u128 usize) } }
    x19 { fixed { fixed!(iterate) } stat { stat!(iterate) } dynamic { dynamic!(iterate) } }
    x20 { ints { ints!(u8 u16 u32 u64 u128 usize) } vectors { vec_bytes() } }
}
