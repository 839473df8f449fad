//! Stand-in for `loom` with an own explorer: every atomic access of the code under test is a
//! scheduling point of a cooperative scheduler that runs the model threads as coroutines on a
//! single OS thread, and a depth-first search enumerates all schedules up to a preemption bound.
#![allow(clippy::all)]
#![allow(static_mut_refs)]

pub mod arena;
pub mod explore;
pub mod sched;

pub mod hint {
    /// A spin iteration.
    pub fn spin_loop() {
        crate::sched::spin();
    }
}

pub mod thread {
    pub use crate::sched::{JoinHandle, Thread, current, park, spawn, yield_now};
}

pub mod sync {
    pub use std::sync::Arc;
    pub mod atomic;
}
