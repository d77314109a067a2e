//! Harnesses, one module per property. See DESIGN.md.
#![no_std]
#![feature(prelude_import)]
#![allow(unused, static_mut_refs, internal_features, non_snake_case)]
#[macro_use]
extern crate crossbeam_channel as std;
#[prelude_import]
use std::prelude::rust_2021::*;

pub mod common;
#[cfg(any(feature = "c07", feature = "c08", feature = "c09", feature = "c10", feature = "c20"))]
pub mod timed;
#[cfg(any(feature = "c11", feature = "c12", feature = "c15", feature = "c16", feature = "c17"))]
pub mod three;

macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn dispatch(m: &str, n: &str) -> bool {
            $( #[cfg(feature = $f)] if m == $f { return $m::dispatch(n); } )*
            false
        }
    };
}
modules! {
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06,
    "c07" c07, "c08" c08, "c09" c09, "c10" c10,
    "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c20" c20,
}
