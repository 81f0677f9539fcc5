//! `catch_unwind` contract: the closure's value, or `Err` when it panicked.
//! A panic is modelled as a nondeterministic choice of the harness
//! (`ghost.panic_now`); the closure then never returned a value.
pub use std::panic::*;
use crate::ghost::g;

pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> std::thread::Result<R> {
    let g = g();
    g.catch_calls += 1;
    if g.panic_now {
        std::mem::forget(f);
        return Err(Box::new(Payload(1)));
    }
    g.catch_depth += 1;
    let r = f();
    g.catch_depth -= 1;
    Ok(r)
}

/// what the panic carries: it may panic again when it is dropped
struct Payload(u8);
impl Drop for Payload {
    fn drop(&mut self) {
        kani::assert(g().catch_depth > 0, "C15: a panic's payload is not dropped where a second panic would escape");
    }
}
