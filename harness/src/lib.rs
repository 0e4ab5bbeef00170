#![allow(dead_code)]
pub mod sym;

/// Declares harness entry points: exported symbols for the executor, a table for native replay.
#[macro_export]
macro_rules! harness {
    ($(fn $name:ident() $body:block)*) => {
        $(#[no_mangle] pub fn $name() $body)*
        pub fn lookup(n: &str) -> Option<fn()> { $(if n == stringify!($name) { return Some($name as fn()); })* None }
    };
}

pub mod codes;
pub mod nf;

macro_rules! groups {
    ($($f:literal $m:ident)*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn lookup(n: &str) -> Option<fn()> {
            $(#[cfg(feature = $f)] if let Some(f) = $m::lookup(n) { return Some(f); })*
            let _ = n;
            None
        }
    };
}
groups! { "seg" seg "ucd" ucd "name" name "chr" chr "par" par "norm" norm "bidi" bidi "idna" idna }
