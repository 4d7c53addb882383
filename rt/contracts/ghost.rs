//! Helpers shared by the contract modules: reify() keeps a stub that carries the
//! contract of a C++ function reachable, so that it is linked in place of the
//! foreign symbol.
#![allow(dead_code, missing_docs, improper_ctypes_definitions)]

macro_rules! link_contracts {
    ($($f:expr),* $(,)?) => {{ $( core::hint::black_box($f as *const ()); )* }};
}
pub(crate) use link_contracts;

/// Must not be reached: its failure class is "undefined behaviour", not "panic",
/// so it is told apart from the panics a #[kani::should_panic] harness demands.
pub(crate) fn never() -> ! {
    unsafe { core::hint::unreachable_unchecked() }
}

/// A fixed-capacity sink for formatting, so that formatted output can be
/// compared byte for byte.
pub(crate) struct Sink<const N: usize> {
    pub buf: [u8; N],
    pub len: usize,
}
impl<const N: usize> Sink<N> {
    pub fn new() -> Self {
        Sink { buf: [0; N], len: 0 }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.buf[..self.len]
    }
}
impl<const N: usize> core::fmt::Write for Sink<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > N - self.len {
            return Err(core::fmt::Error);
        }
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.buf.as_mut_ptr().add(self.len), s.len()) };
        self.len += s.len();
        Ok(())
    }
}

/// A Hasher recording what it is fed.
pub(crate) struct Rec {
    pub buf: [u8; 32],
    pub len: usize,
}
impl Rec {
    pub fn new() -> Self {
        Rec { buf: [0; 32], len: 0 }
    }
    pub fn same(&self, other: &Rec) -> bool {
        let i: usize = kani::any();
        self.len == other.len && (i >= 32 || self.buf[i] == other.buf[i])
    }
}
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.buf[self.len % 32] = *b;
            self.len += 1;
        }
    }
}

/// A fresh object of `len` elements, len symbolic (up to 2^40 bytes): the
/// memory behind a pointer/length pair of any length.
pub(crate) fn fresh<T>(len: usize) -> *mut T {
    let bytes = len * core::mem::size_of::<T>();
    kani::assume(bytes > 0 && bytes <= 1 << 40);
    unsafe { alloc::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(bytes, core::mem::align_of::<T>())) as *mut T }
}
