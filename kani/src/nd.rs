//! Nondeterministic values. Under Kani they are symbolic; natively they are either replayed from a
//! counterexample (one byte string per value, in call order) or drawn at random by the counterexample search.
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn u128() -> u128 { kani::any() }
    pub fn usize() -> usize { kani::any() }
    pub fn bool() -> bool { kani::any::<u8>() & 1 == 1 }
    /// Precondition
    pub fn assume(b: bool) { kani::assume(b) }
    /// `0 <= result < n`
    pub fn below(n: usize) -> usize { let x: usize = kani::any(); kani::assume(x < n); x }
    /// Reachability witness: must be satisfiable, or the obligation is vacuous
    pub fn reach() { kani::cover!(true, "reachable"); }
    /// A point that must not be reached
    pub fn never() { kani::cover!(true, "never"); }
    pub const NATIVE: bool = false;
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub enum Src { Replay(std::collections::VecDeque<Vec<u8>>), Random(u64) }
    pub struct Rejected;
    thread_local! { pub static SRC: RefCell<Src> = RefCell::new(Src::Random(1)); pub static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]); }
    fn next(s: &mut u64) -> u64 { *s = s.wrapping_add(0x9E3779B97F4A7C15); let mut z = *s; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn bytes(n: usize, below: Option<u128>) -> u128 {
        let v = SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Replay(q) => match q.pop_front() { Some(b) => { let mut a = [0u8; 16]; for (i, x) in b.iter().take(16).enumerate() { a[i] = *x } u128::from_le_bytes(a) } None => 0 },
            Src::Random(st) => {
                let full = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                let r = (next(st) as u128) | ((next(st) as u128) << 64);
                let r = match next(st) % 8 { 0 => 0, 1 => full, 2 => 1u128 << (r % (8 * n as u128)), 3 => full ^ (1u128 << (r % (8 * n as u128))), 4 => r >> ((next(st) % (8 * n as u64)) as u32 + 128 - 8 * n as u32), _ => r } & full;
                match below { Some(b) => if b == 0 { 0 } else { match next(st) % 8 { 0 => 0, 1 => b - 1, _ => ((next(st) as u128) | ((next(st) as u128) << 64)) % b } }, None => r }
            }
        });
        LOG.with(|l| l.borrow_mut().push(v.to_le_bytes()[..n.min(16)].to_vec()));
        v
    }
    pub fn u8() -> u8 { bytes(1, None) as u8 }
    pub fn u16() -> u16 { bytes(2, None) as u16 }
    pub fn u32() -> u32 { bytes(4, None) as u32 }
    pub fn u64() -> u64 { bytes(8, None) as u64 }
    pub fn u128() -> u128 { bytes(16, None) }
    pub fn usize() -> usize { bytes(8, None) as usize }
    pub fn bool() -> bool { u8() & 1 == 1 }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Rejected) } }
    pub fn below(n: usize) -> usize { let x = bytes(8, Some(n as u128)) as usize; assume(x < n); x }
    pub fn reach() {}
    pub struct Never;
    pub fn never() { NEVER.with(|n| n.set(true)); std::panic::panic_any(Never) }
    thread_local! { pub static NEVER: std::cell::Cell<bool> = std::cell::Cell::new(false); }
    pub const NATIVE: bool = true;
}
pub use imp::*;
