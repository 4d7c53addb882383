//! Contract of prevent_unwind (property R06).
#![allow(dead_code, missing_docs, static_mut_refs)]
use super::*;
static mut CALLS: usize = 0;
#[kani::proof]
fn r06_prevent_unwind_transparent() {
    let x: u64 = kani::any();
    let r = prevent_unwind("label", || {
        unsafe { CALLS += 1 };
        x
    });
    kani::assert(r == x, "R06 the guarded call's result is returned unchanged");
    unsafe { kani::assert(CALLS == 1, "R06 the guarded call runs exactly once") };
}
