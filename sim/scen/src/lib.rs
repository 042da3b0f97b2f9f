#![feature(thread_local)]
#![allow(static_mut_refs)]
//! The system under simulation: rcgal's generic code instantiated for the plain
//! floating-point types and for a caller-supplied number type, and the calls the
//! simulated callers make. This crate is compiled with the simulator's
//! instrumentation; everything it reaches in rcgal is the real code.
pub mod exec;
pub mod num;
pub mod ops;
