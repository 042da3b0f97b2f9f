#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! The simulator: scheduler, clock, allocator, system-call seams, fault injection.
//! Nothing in this crate is instrumented, so it never schedules itself.
pub mod plan;
pub mod raw;
pub mod rt;
pub mod sys;
