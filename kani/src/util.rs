/// Declares contract obligations: each is a Kani proof harness (with its loop-unwinding bound; unwinding assertions are on,
/// so a passing obligation covers every iteration) and, natively, an entry of the replay registry.
macro_rules! obligations {
    ($( $(#[$a:meta])* $name:ident [$u:literal] $body:block )*) => {
        $( #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($u))] $(#[$a])* pub fn $name() { $body; $crate::nd::reach(); } )*
        pub const LIST: &[(&str, fn(), bool)] = &[ $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), false) ),* ];
    };
}
/// The same generic contract for several index types
macro_rules! per_type {
    ($f:ident [$u:literal] $( $n:ident: $t:ty ),* $(,)?) => {
        pub mod $f { #[allow(unused_imports)] use crate::idx::*; obligations! { $( $n [$u] { super::$f::<$t>() } )* } }
    };
    ($f:ident; $( $n:ident [$u:literal]: $t:ty ),* $(,)?) => {
        pub mod $f { #[allow(unused_imports)] use crate::idx::*; obligations! { $( $n [$u] { super::$f::<$t>() } )* } }
    };
}
/// Obligations that the call panics (on every input meeting the precondition) and never reaches a `nd::never` mark
macro_rules! panics {
    ($( $name:ident [$u:literal] $body:block )*) => {
        $( #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::should_panic)] #[cfg_attr(kani, kani::unwind($u))] pub fn $name() { $body; $crate::nd::never(); } )*
        pub const LIST: &[(&str, fn(), bool)] = &[ $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), true) ),* ];
    };
}
