//! Scheduling runtime and std facade for the instrumented build of the crate under test.
//!
//! `vstd` mirrors the parts of `std` that make a program's behaviour depend on threads or clocks.  While an
//! execution is active on the current OS thread every facade operation reports to the runtime, which runs all
//! virtual threads as coroutines of that one OS thread, chooses who moves next, detects threads that can never
//! move again and owns a virtual clock.  With no execution active the facade behaves like std.
pub mod rt;
pub mod vstd;
pub use rt::*;
