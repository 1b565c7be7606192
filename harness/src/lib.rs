//! Property harnesses. Each one states a property of seshat's public API as
//! assertions over inputs obtained from `vp_in`; the symbolic engine runs the
//! compiled code for all inputs, the replay program for one given input.
#![allow(dead_code)]
pub type H = (&'static str, extern "C" fn());
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        pub const ALL: &[$crate::H] = &[ $( (stringify!($n), $n as extern "C" fn()) ),* ];
    };
}

pub mod gen;
pub mod spec;
pub mod vp;
#[cfg(feature = "props")]
pub mod props;
#[cfg(feature = "names")]
pub mod names;
#[cfg(feature = "text")]
pub mod text;
#[cfg(feature = "laws")]
pub mod laws;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v: Vec<H> = vec![];
    #[cfg(feature = "props")]
    v.extend_from_slice(props::ALL);
    #[cfg(feature = "names")]
    v.extend_from_slice(names::ALL);
    #[cfg(feature = "text")]
    v.extend_from_slice(text::ALL);
    #[cfg(feature = "laws")]
    v.extend_from_slice(laws::ALL);
    v
}
