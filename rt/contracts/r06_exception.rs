//! Contract of cxxbridge1$exception (property R06).
#![allow(dead_code, missing_docs)]
use super::*;

#[kani::proof]
#[kani::unwind(5)]
fn r06_exception_entry_bounded() {
    let b: [u8; 1] = kani::any();
    kani::assume(b[0] < 0x80);
    let n = 1;
    let r = unsafe { exception(b.as_ptr(), n) };
    kani::assert(r.len == n, "R06 exception message has the given length");
    let k: usize = kani::any();
    unsafe {
        let s = slice::from_raw_parts(r.ptr.as_ptr(), r.len);
        kani::assert(k >= n || s[k] == b[k], "R06 exception message is the given text");
        drop(Box::from_raw(core::ptr::slice_from_raw_parts_mut(r.ptr.as_ptr(), r.len)));
    }
}
#[kani::proof]
#[kani::unwind(5)]
fn r06_exception_entry_lossy_bounded() {
    let b: [u8; 1] = kani::any();
    kani::assume(b[0] >= 0x80);
    let r = unsafe { exception(b.as_ptr(), 1) };
    unsafe {
        let s = slice::from_raw_parts(r.ptr.as_ptr(), r.len);
        kani::assert(r.len == 3 && s[0] == 0xEF && s[1] == 0xBF && s[2] == 0xBD, "R06 ill-formed text is replaced, and the length is that of the replaced text");
    }
}
