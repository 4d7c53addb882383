//! Contracts of the cxxbridge1$str$* entry points (property R05).
#![allow(dead_code, missing_docs)]
use super::*;
use crate::verif_ghost::fresh;
use alloc::vec::Vec;

#[kani::proof]
fn r05_str_new() {
    let mut m = MaybeUninit::uninit();
    unsafe {
        str_new(&mut m);
        let s = m.assume_init();
        kani::assert(s.len() == 0 && !s.as_ptr().is_null(), "R05 str$new is empty and well-formed");
    }
}
#[kani::proof]
fn r05_str_ref() {
    let len: usize = kani::any();
    let cap: usize = kani::any();
    kani::assume(len <= cap && cap > 0 && cap <= 1 << 40);
    let p = fresh::<u8>(cap);
    let s = unsafe { String::from_utf8_unchecked(Vec::from_raw_parts(p, len, cap)) };
    let mut m = MaybeUninit::uninit();
    unsafe {
        str_ref(&mut m, &s);
        let t = m.assume_init();
        kani::assert(t.as_ptr() == p as *const u8 && t.len() == len, "R05 str$ref borrows the whole string");
        kani::assert(str_ptr(&t) == p as *const u8, "R05 str$ptr");
        kani::assert(str_len(&t) == len, "R05 str$len");
    }
    core::mem::forget(s);
}
#[kani::proof]
#[kani::unwind(6)]
fn r05_str_from_bounded() {
    let b: [u8; 4] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let valid = {
        let mut i = 0;
        let mut ok = true;
        while i < n && ok {
            let r = &b[i..n];
            let k = match r[0] { 0..=0x7F => 1, 0xC2..=0xDF => 2, 0xE0..=0xEF => 3, 0xF0..=0xF4 => 4, _ => 0 };
            if k == 0 || r.len() < k {
                ok = false;
            } else {
                let (lo, hi) = match r[0] { 0xE0 => (0xA0, 0xBF), 0xED => (0x80, 0x9F), 0xF0 => (0x90, 0xBF), 0xF4 => (0x80, 0x8F), _ => (0x80, 0xBF) };
                ok = !(k > 1 && (r[1] < lo || r[1] > hi) || k > 2 && r[2] & 0xC0 != 0x80);
                i += k;
            }
        }
        ok
    };
    let mut m: MaybeUninit<&str> = MaybeUninit::new("untouched");
    unsafe {
        let ok = str_from(&mut m, b.as_ptr(), n);
        kani::assert(ok == valid, "R05 str$from accepts exactly well-formed UTF-8");
        let t = m.assume_init();
        if ok {
            kani::assert(t.as_ptr() == b.as_ptr() && t.len() == n, "R05 str$from borrows exactly the given bytes");
        } else {
            kani::assert(t.len() == 9, "R05 str$from leaves the target untouched on failure");
        }
    }
}
