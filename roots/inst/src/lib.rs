//! Monomorphic instances: each item only makes the compiler produce the MIR of
//! one instance of a generic function of /repo. Nothing here is verified itself.
#![allow(clippy::all, missing_docs)]
extern crate alloc;
pub mod stylus;
pub mod checkpoints;
pub mod crypto;
pub mod poseidon;
pub mod curve;
