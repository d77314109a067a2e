//! Environment model. See DESIGN.md, "The environment model".
//!
//! This crate plays two roles:
//!  * it *is* `crossbeam-channel` for /repo (through `[patch.crates-io]`);
//!  * it is the `std` that /repo sees under `--cfg mpst_verif` (real `std`
//!    re-exported, with threads, clocks, hash maps and `panic!` replaced).
//!
//! Execution is sequential: one participant runs at a time.  Whenever the code
//! under test would block, [`world::on_block`] is consulted; the harness installs
//! there a (nondeterministic) description of what the other participants do.
#![allow(unused, dead_code)]

pub use std::*;

pub mod chan;
pub mod collections;
pub mod nd;
pub mod world;
pub mod panic;
pub mod thread;
pub mod time;

pub use chan::*;

pub mod prelude {
    pub mod v1 {
        pub use crate::{eprint, eprintln, print, println};
        pub use crate::{panic, unreachable, todo, unimplemented, assert, assert_eq, assert_ne, debug_assert, debug_assert_eq, debug_assert_ne};
        pub use std::prelude::v1::*;
    }
    pub mod rust_2021 {
        pub use super::v1::*;
        pub use core::prelude::rust_2021::*;
        pub use crate::{panic, unreachable, todo, unimplemented, assert, assert_eq, assert_ne, debug_assert, debug_assert_eq, debug_assert_ne};
    }
}

/// A panic of the code under test. Arguments are not formatted.
#[macro_export]
macro_rules! panic {
    () => { $crate::world::panicked() };
    ($($t:tt)*) => {{ if false { let _ = ::core::format_args!($($t)*); } $crate::world::panicked() }};
}
#[macro_export]
macro_rules! unreachable { ($($t:tt)*) => { $crate::world::panicked() }; }
#[macro_export]
macro_rules! todo { ($($t:tt)*) => { $crate::world::panicked() }; }
#[macro_export]
macro_rules! unimplemented { ($($t:tt)*) => { $crate::world::panicked() }; }
#[macro_export]
macro_rules! assert {
    ($c:expr $(,)?) => { if !$c { $crate::world::panicked() } };
    ($c:expr, $($t:tt)+) => { if !$c { $crate::world::panicked() } };
}
#[macro_export]
macro_rules! assert_eq {
    ($a:expr, $b:expr $(, $($t:tt)*)?) => { if !($a == $b) { $crate::world::panicked() } };
}
#[macro_export]
macro_rules! assert_ne {
    ($a:expr, $b:expr $(, $($t:tt)*)?) => { if $a == $b { $crate::world::panicked() } };
}
#[macro_export]
macro_rules! debug_assert { ($($t:tt)*) => { $crate::assert!($($t)*) }; }
#[macro_export]
macro_rules! debug_assert_eq { ($($t:tt)*) => { $crate::assert_eq!($($t)*) }; }
#[macro_export]
macro_rules! debug_assert_ne { ($($t:tt)*) => { $crate::assert_ne!($($t)*) }; }
#[macro_export]
macro_rules! print { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export]
macro_rules! eprint { ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } }; }
#[macro_export]
macro_rules! println {
    () => {};
    ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } };
}
#[macro_export]
macro_rules! eprintln {
    () => {};
    ($($t:tt)*) => { if false { let _ = ::core::format_args!($($t)*); } };
}
