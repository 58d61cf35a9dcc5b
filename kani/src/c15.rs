//! C15 (bounded stand-in beside the Verus proof): bit ranges of short byte vectors, all concrete ranges
use crate::nd;
use morton_index::number::Bits;

fn vec_of(v: u64, n: usize) -> Vec<u8> { let b = v.to_le_bytes(); let mut r = Vec::with_capacity(n); for i in 0..n { r.push(b[i]); } r }
fn as_int(v: &Vec<u8>) -> u64 { let mut r = 0; for i in 0..v.len() { r |= (v[i] as u64) << (8 * i); } r }
fn bits(v: u64, s: usize, e: usize) -> u64 { if e - s >= 64 { v >> s } else { (v >> s) & ((1u64 << (e - s)) - 1) } }
fn with(v: u64, s: usize, e: usize, x: u64) -> u64 { if s == e { v } else { let m = if e - s >= 64 { !0 } else { ((1u64 << (e - s)) - 1) << s }; (v & !m) | ((x << s) & m) } }
/// all ranges starting at `s` of a vector of `n` bytes
fn get(n: usize, s: usize) {
    let v = nd::u64();
    let x = vec_of(v, n);
    for e in s..8 * n + 1 {
        let g = unsafe { x.get_bits(s..e) };
        assert!(g.len() == (e - s + 7) / 8, "as many bytes as the range needs");
        assert!(as_int(&g) == bits(v, s, e), "exactly the bits of the range");
        assert!(unsafe { x.get_bits_as_usize(s..e) } as u64 == bits(v, s, e), "as usize");
    }
}
fn set(n: usize, s: usize) {
    let v = nd::u64();
    let w = bits(v, 0, 8 * n);
    let x = nd::u64();
    for e in s + 1..8 * n + 1 {
        let mut y = vec_of(v, n);
        unsafe { y.set_bits(s..e, vec_of(x, (e - s + 7) / 8)) };
        assert!(y.len() == n && as_int(&y) == with(w, s, e, x), "exactly the bits of the range");
        let mut y = vec_of(v, n);
        unsafe { y.set_bits(s..e, vec_of(x, (e - s + 7) / 8 + 1)) };
        assert!(y.len() == n && as_int(&y) == with(w, s, e, x), "a longer source");
        let mut y = vec_of(v, n);
        unsafe { y.set_bits_from_usize(s..e, x as usize) };
        assert!(y.len() == n && as_int(&y) == with(w, s, e, x), "from usize");
    }
}
macro_rules! both { ($( $g:ident $h:ident $n:literal $s:literal )*) => {
    pub mod get { use super::get as f; obligations! { $( $g [27] { f($n, $s) } )* } }
    pub mod set { use super::set as f; obligations! { $( $h [27] { f($n, $s) } )* } }
} }
both! { n1_s0 n1_s0 1 0  n1_s3 n1_s3 1 3  n1_s7 n1_s7 1 7  n2_s0 n2_s0 2 0  n2_s1 n2_s1 2 1 n2_s5 n2_s5 2 5 n2_s7 n2_s7 2 7 n2_s8 n2_s8 2 8  n2_s11 n2_s11 2 11  n3_s0 n3_s0 3 0 n3_s2 n3_s2 3 2 n3_s3 n3_s3 3 3 n3_s7 n3_s7 3 7 n3_s9 n3_s9 3 9 n3_s16 n3_s16 3 16 }
