//! Contracts of Result translation (property R06).
#![allow(dead_code, missing_docs, static_mut_refs)]
use super::*;
use crate::verif_ghost::link_contracts;
use core::fmt;

static mut COPY: [u8; 8] = [0; 8];
static mut COPIES: usize = 0;
static mut COPY_LEN: usize = 0;

/// Contract of cxxbridge1$error: copies [ptr, ptr+len) into a buffer C++ owns.
#[export_name = "cxxbridge1$error"]
unsafe extern "C" fn g_error(ptr: *const u8, len: usize) -> NonNull<u8> {
    unsafe {
        COPIES += 1;
        COPY_LEN = len;
        kani::assert(len <= 8, "R06 harness buffer");
        core::ptr::copy_nonoverlapping(ptr, (&raw mut COPY).cast::<u8>(), len);
        NonNull::new_unchecked((&raw mut COPY).cast())
    }
}
static mut DISPLAYED: usize = 0;
struct Msg {
    b: [u8; 3],
    n: usize,
}
impl Display for Msg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unsafe { DISPLAYED += 1 };
        f.write_str(unsafe { str::from_utf8_unchecked(&self.b[..self.n]) })
    }
}
static mut DROPS: usize = 0;
struct Tok(u32);
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
#[kani::proof]
fn r06_ok() {
    link_contracts!(g_error);
    let x: u32 = kani::any();
    let mut ret = core::mem::MaybeUninit::<Tok>::uninit();
    let r = unsafe { r#try::<Tok, Msg>(ret.as_mut_ptr(), Ok(Tok(x))) };
    unsafe {
        kani::assert(r.ok.is_null(), "R06 Ok is reported as success");
        kani::assert(COPIES == 0, "R06 Ok produces no error message");
        kani::assert(DROPS == 0, "R06 the Ok value is not dropped but handed over");
        let v = ret.assume_init();
        kani::assert(v.0 == x, "R06 the Ok value is written to the return slot");
        drop(v);
        kani::assert(DROPS == 1, "R06 the Ok value is owned once");
        kani::assert(r.exception().is_ok(), "R06 success carries no exception");
    }
}
#[kani::proof]
#[kani::unwind(12)]
fn r06_err_bounded() {
    link_contracts!(g_error);
    let b: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut ret = 0x5555_5555u32;
    let r = unsafe { r#try::<u32, Msg>(&mut ret, Err(Msg { b, n })) };
    unsafe {
        kani::assert(!r.ok.is_null(), "R06 Err is reported as failure");
        kani::assert(ret == 0x5555_5555, "R06 Err leaves the return slot untouched");
        kani::assert(DISPLAYED == 1 && COPIES == 1, "R06 the error is rendered and copied once");
        // The C++ side receives the Display text, NUL-terminated for what().
        let k: usize = kani::any();
        kani::assert(COPY_LEN == n + 1 && COPY[n] == 0 && (k >= n || COPY[k] == b[k]), "R06 the message is the Display text plus NUL");
        kani::assert(r.err.ptr.as_ptr() == (&raw mut COPY).cast::<u8>() && r.err.len == COPY_LEN, "R06 the failure refers to the copied message");
    }
}
/// Result produced by the C++ side: null means Ok; otherwise the message,
/// boxed by cxxbridge1$exception, becomes the Exception, owned once.
#[kani::proof]
#[kani::unwind(6)]
fn r06_exception_bounded() {
    let b: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut v = alloc::vec::Vec::with_capacity(3);
    let mut i = 0;
    while i < n {
        v.push(b[i]);
        i += 1;
    }
    let boxed = v.into_boxed_slice();
    let p = Box::into_raw(boxed) as *mut u8;
    let r = Result { err: PtrLen { ptr: NonNull::new(p).unwrap(), len: n } };
    match unsafe { r.exception() } {
        Ok(()) => kani::assert(false, "R06 a thrown exception is an Err"),
        Err(e) => {
            let w = e.what().as_bytes();
            let k: usize = kani::any();
            kani::assert(w.as_ptr() == p as *const u8 && w.len() == n && (k >= n || w[k] == b[k]), "R06 what() is the thrown message");
        }
    }
}
#[kani::proof]
fn r06_no_exception() {
    let r = Result { ok: ptr::null() };
    kani::assert(unsafe { r.exception() }.is_ok(), "R06 no exception is Ok");
}
#[kani::proof]
#[kani::unwind(8)]
fn r06_exception_display_bounded() {
    use core::fmt::Write;
    let b: [u8; 2] = kani::any();
    kani::assume(b[0] < 0x80 && b[1] < 0x80);
    let s: Box<str> = unsafe { str::from_utf8_unchecked(&b) }.into();
    let e = Exception { what: s };
    let mut out = crate::verif_ghost::Sink::<4>::new();
    kani::assert(write!(out, "{}", e).is_ok(), "R06 Display of Exception succeeds");
    kani::assert(out.len == 2 && out.buf[0] == b[0] && out.buf[1] == b[1], "R06 Display of Exception is its message");
}
