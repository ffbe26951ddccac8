//! simos: a deterministic simulated operating system for unmodified Rust code.
//!
//! Simulated processes are threads, exactly one of which runs at a time; at every intercepted
//! libc call (defined here with the libc names, so the static link resolves to these) the seeded
//! tape decides who runs next and which fault, if any, the call meets. Files live in memory, the
//! clock, the pid and the random source are simulated. Threads that are not simulated processes
//! get the real system call.
pub mod tape;
pub mod world;
mod hooks;
mod escape;

/// Ends the running simulated process with an exit code, as exit() would; only called on its thread.
pub fn end_process(code: i32) -> ! {
    escape::leave(code)
}
/// Is this thread a simulated process?
pub fn in_process() -> bool {
    world::ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

pub mod alloc;

/// How far apart the context switches at allocations are: most runs have none.
pub const ALLOC_GAPS: [u64; 8] = [0, 0, 0, 0, 0, 2000, 200, 24];

pub use tape::{Prng, Tape};
pub use world::*;

/// Keeps the interposed symbols linked in.
pub fn link_me() {
    hooks::anchor();
}
