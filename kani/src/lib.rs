#![allow(clippy::all)]
#![allow(static_mut_refs)]
//! Contract obligations on the real morton-index code. See /verif/DESIGN.md.
#[macro_use]
mod util;
pub mod nd;
pub mod idx;
pub mod ghost;
#[cfg(not(kani))]
pub mod exec;
macro_rules! modules {
    ($( $m:ident: $($s:ident)*; )*) => {
        $( pub mod $m; )*
        /// (name, obligation, must it panic)
        pub fn registry() -> Vec<(&'static str, fn(), bool)> {
            let mut v = vec![];
            #[cfg(not(kani))]
            for l in [$crate::exec::x01::LIST, $crate::exec::x02::LIST, $crate::exec::x03::LIST, $crate::exec::x04::LIST, $crate::exec::x05::LIST, $crate::exec::x06::LIST, $crate::exec::x07::LIST, $crate::exec::x08::LIST, $crate::exec::x09::LIST, $crate::exec::x10::LIST, $crate::exec::x11::LIST, $crate::exec::x12::LIST, $crate::exec::x13::LIST, $crate::exec::x15::LIST, $crate::exec::x17::LIST, $crate::exec::x19::LIST, $crate::exec::x20::LIST] {
                for (n, f, p) in l { v.push((&n["obligations::exec::".len()..], *f, *p)); }
            }
            $( $( for (n, f, p) in $m::$s::LIST { v.push((&n["obligations::".len()..], *f, *p)); } )* )*
            v
        }
    };
}
modules! {
    c01: set_get;
    c02: dynamic;
    wrap: inside outside;
    c03: s4 s6 s7 s10 s12 s18 s23 s34 s44 s66 some_lengths arrays fixed_default static_zeroed dynamic;
    c04: fixed stat dynamic;
    c05: fixed stat fast dynamic;
    c06: to_grid2 to_grid3 to_grid_dynamic round_trip;
    c07: cmp dynamic;
    c08: eq steps raw made dynamic;
    c09: ancestor dynamic;
    c10: children d4 d6 d7 d10 d12 d18 few all dynamic;
    c11: fixed_static fixed_dynamic static_dynamic dynamic_others;
    c13: inverted twice dynamic;
    c14: get set size;
    c15: get set;
    c16: spread;
    c17: align;
    c18: cells orderings;
    c19: cells dynamic;
    c20: bytes numbers vectors;
    assumed: checked_shr checked_shl bytes whole copy_into text ordering sized;
}
