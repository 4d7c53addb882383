//! Contracts of the cxxbridge1$slice$* entry points (property R05).
#![allow(dead_code, missing_docs)]
use super::*;

#[kani::proof]
fn r05_slice_new_ptr_len() {
    // Any non-null pointer and any length a slice may have: the entry points only
    // carry them.
    let n: usize = kani::any();
    kani::assume(n <= 1 << 40);
    let p = crate::verif_ghost::fresh::<u8>(n + 1).cast::<()>();
    let p = NonNull::new(p).unwrap();
    let mut m = MaybeUninit::uninit();
    unsafe {
        slice_new(&mut m, p, n);
        let s = m.assume_init();
        kani::assert(slice_ptr(&s) == p, "R05 slice$ptr returns the pointer of slice$new");
        kani::assert(slice_len(&s) == n, "R05 slice$len returns the length of slice$new");
        let t = s.as_slice::<u8>();
        kani::assert(t.as_ptr() as usize == p.as_ptr() as usize && t.len() == n, "R05 a slice made by C++ is that Rust slice");
    }
}
