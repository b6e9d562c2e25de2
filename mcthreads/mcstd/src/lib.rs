//! The standard library, with locks, condition variables, atomics and thread
//! yields that are scheduling points of a controlled scheduler. Outside of the
//! scheduler everything behaves as in std.
pub use ::std::*;

pub mod control;
pub mod hint;
pub mod sync;
pub mod thread;
