//! Everything the simulator asks of one build of fixnum, behind plain integers: an operation code,
//! a type code, raw amounts as i128, byte strings. Only public API of fixnum is used.
#![allow(clippy::all)]

pub mod bare;
pub mod ops;
pub mod wire;
pub mod wrap;

pub use fxmodel::codes::*;

/// Arguments of a call.
#[derive(Clone, Copy)]
pub struct Args<'a> {
    pub op: u32,
    /// Storage bits * 64 + precision.
    pub ty: u32,
    /// Rounding mode (-1, 0, 1), integer kind, exponent or wire form, depending on `op`.
    pub k: i64,
    pub a: i128,
    pub b: i128,
    pub text: &'a [u8],
}

pub fn call(args: Args<'_>) -> Out {
    ops::dispatch(&args)
}

/// All types of this build as (bits, precision).
pub fn types() -> &'static [(u32, u32)] {
    ops::TYPES
}

static SCRATCH: std::sync::Mutex<Option<Vec<u8>>> = std::sync::Mutex::new(None);

/// Memory for the bytes of the next answer, so that a call needs none of its own.
pub fn give_scratch(v: Vec<u8>) {
    *SCRATCH.lock().unwrap_or_else(|e| e.into_inner()) = Some(v);
    GIVEN.store(true, std::sync::atomic::Ordering::Relaxed);
}
static GIVEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub(crate) fn take_scratch() -> Vec<u8> {
    // (where nothing was ever given, threads must not meet at a lock)
    if !GIVEN.load(std::sync::atomic::Ordering::Relaxed) {
        return Vec::new();
    }
    SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}
