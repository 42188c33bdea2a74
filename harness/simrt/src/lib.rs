//! simrt: a deterministic simulator for real OS threads inside one process.
//!
//! All threads created while the simulator is active are real threads (thread-locals are genuine), but only
//! the one holding the baton runs.  The baton changes hands only here, by decisions of a seeded scheduler
//! (or of a recorded decision list).  Seams: the libc symbols below (futex, yield, sleep, clock, thread
//! creation/join, getrandom, file system) and the load/store callbacks the compiler inserts
//! (`__sanitizer_cov_{load,store}*`).
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

pub mod alloc;
pub mod fs;
mod interpose;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod sys;

pub use sched::{
    active, block_stats, callback_point, checkpoint, current_tid, event, fail, finish, note_fault, quiet, set_panic_capture,
    probe, start, take_panics, thin, SimConfig, FK_NAMES, Policy,
};
