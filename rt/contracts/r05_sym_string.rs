//! Contracts of the cxxbridge1$string$* entry points (property R05).
#![allow(dead_code, missing_docs)]
use super::*;
use crate::verif_ghost::fresh;
use alloc::vec::Vec;

fn any_string() -> (String, *mut u8, usize, usize) {
    let (len, cap): (usize, usize) = (kani::any(), kani::any());
    kani::assume(len <= cap && cap <= 1 << 40);
    if cap == 0 {
        let mut s = String::new();
        let p = s.as_mut_ptr();
        (s, p, 0, 0)
    } else {
        let p = fresh::<u8>(cap);
        (unsafe { String::from_utf8_unchecked(Vec::from_raw_parts(p, len, cap)) }, p, len, cap)
    }
}
#[kani::proof]
fn r05_string_new() {
    let mut m = MaybeUninit::uninit();
    unsafe {
        string_new(&mut m);
        let s = m.assume_init();
        kani::assert(s.len() == 0 && s.capacity() == 0, "R05 string$new is empty");
    }
}
#[kani::proof]
fn r05_string_accessors() {
    let (s, p, len, cap) = any_string();
    unsafe {
        kani::assert(string_ptr(&s) == p as *const u8, "R05 string$ptr");
        kani::assert(string_len(&s) == len, "R05 string$len");
        kani::assert(string_capacity(&s) == cap, "R05 string$capacity");
    }
    core::mem::forget(s);
}
#[kani::proof]
#[kani::unwind(6)]
fn r05_string_clone_bounded() {
    let b: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut v = Vec::with_capacity(3);
    let mut i = 0;
    while i < n {
        v.push(b[i]);
        i += 1;
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let mut m = MaybeUninit::uninit();
    unsafe {
        string_clone(&mut m, &s);
        let c = m.assume_init();
        let k: usize = kani::any();
        kani::assert(c.len() == n && (k >= n || c.as_bytes()[k] == b[k]), "R05 string$clone copies the content");
        kani::assert(n == 0 || c.as_ptr() != s.as_ptr(), "R05 string$clone has its own buffer");
    }
}
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let r = &b[i..];
        let n = match r[0] {
            0..=0x7F => 1,
            0xC2..=0xDF => 2,
            0xE0..=0xEF => 3,
            0xF0..=0xF4 => 4,
            _ => return false,
        };
        if r.len() < n {
            return false;
        }
        let (lo, hi) = match r[0] {
            0xE0 => (0xA0, 0xBF),
            0xED => (0x80, 0x9F),
            0xF0 => (0x90, 0xBF),
            0xF4 => (0x80, 0x8F),
            _ => (0x80, 0xBF),
        };
        if n > 1 && (r[1] < lo || r[1] > hi) || n > 2 && r[2] & 0xC0 != 0x80 || n > 3 && r[3] & 0xC0 != 0x80 {
            return false;
        }
        i += n;
    }
    true
}
#[kani::proof]
#[kani::unwind(6)]
fn r05_string_from_utf8_bounded() {
    let b: [u8; 3] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let mut m = MaybeUninit::uninit();
    unsafe {
        let ok = string_from_utf8(&mut m, b.as_ptr(), n);
        kani::assert(ok == utf8(&b[..n]), "R05 string$from_utf8 accepts exactly well-formed UTF-8");
        if ok {
            let s = m.assume_init();
            let k: usize = kani::any();
            kani::assert(s.len() == n && (k >= n || s.as_bytes()[k] == b[k]), "R05 string$from_utf8 copies the text");
        }
    }
}
/// One code unit: accepted unless it is a surrogate.
#[kani::proof]
#[kani::unwind(5)]
fn r05_string_from_utf16_bounded() {
    let u: [u16; 1] = kani::any();
    let mut m = MaybeUninit::uninit();
    unsafe {
        let ok = string_from_utf16(&mut m, u.as_ptr(), 1);
        kani::assert(ok == !(0xD800..0xE000).contains(&u[0]), "R05 string$from_utf16 accepts exactly well-formed UTF-16");
        if ok {
            let s = m.assume_init();
            let s = s.as_bytes();
            let x = u[0] as u32;
            if x < 0x80 {
                kani::assert(s.len() == 1 && s[0] as u32 == x, "R05 string$from_utf16 transcodes");
            } else if x < 0x800 {
                kani::assert(s.len() == 2 && ((s[0] as u32 & 0x1F) << 6 | (s[1] as u32 & 0x3F)) == x, "R05 string$from_utf16 transcodes");
            } else {
                kani::assert(s.len() == 3 && ((s[0] as u32 & 0xF) << 12 | (s[1] as u32 & 0x3F) << 6 | (s[2] as u32 & 0x3F)) == x, "R05 string$from_utf16 transcodes");
            }
        }
    }
}
#[kani::proof]
#[kani::unwind(5)]
fn r05_string_from_utf8_lossy_bounded() {
    let b: [u8; 1] = kani::any();
    let mut m = MaybeUninit::uninit();
    unsafe {
        string_from_utf8_lossy(&mut m, b.as_ptr(), 1);
        let s = m.assume_init();
        let s = s.as_bytes();
        if b[0] < 0x80 {
            kani::assert(s.len() == 1 && s[0] == b[0], "R05 string$from_utf8_lossy keeps valid text");
        } else {
            kani::assert(s.len() == 3 && s[0] == 0xEF && s[1] == 0xBF && s[2] == 0xBD, "R05 string$from_utf8_lossy replaces ill-formed bytes");
        }
    }
}
#[kani::proof]
#[kani::unwind(5)]
fn r05_string_from_utf16_lossy_bounded() {
    let u: [u16; 1] = kani::any();
    let mut m = MaybeUninit::uninit();
    unsafe {
        string_from_utf16_lossy(&mut m, u.as_ptr(), 1);
        let s = m.assume_init();
        let s = s.as_bytes();
        let x = if (0xD800..0xE000).contains(&u[0]) { 0xFFFD } else { u[0] as u32 };
        if x < 0x80 {
            kani::assert(s.len() == 1 && s[0] as u32 == x, "R05 string$from_utf16_lossy transcodes");
        } else if x < 0x800 {
            kani::assert(s.len() == 2 && ((s[0] as u32 & 0x1F) << 6 | (s[1] as u32 & 0x3F)) == x, "R05 string$from_utf16_lossy transcodes");
        } else {
            kani::assert(s.len() == 3 && ((s[0] as u32 & 0xF) << 12 | (s[1] as u32 & 0x3F) << 6 | (s[2] as u32 & 0x3F)) == x, "R05 string$from_utf16_lossy transcodes");
        }
    }
}
#[kani::proof]
#[kani::unwind(5)]
fn r05_string_reserve_bounded() {
    let len: usize = kani::any();
    let n: usize = kani::any();
    kani::assume(len <= 3 && n <= 6);
    let mut v = Vec::with_capacity(4);
    let b: [u8; 3] = kani::any();
    let mut i = 0;
    while i < len {
        v.push(b[i]);
        i += 1;
    }
    let mut s = unsafe { String::from_utf8_unchecked(v) };
    let cap = s.capacity();
    unsafe {
        if kani::any() {
            string_reserve_total(&mut s, n);
            kani::assert(s.capacity() >= n, "R05 string$reserve_total makes room for n bytes in total");
            kani::assert(n > cap || s.capacity() == cap, "R05 string$reserve_total within capacity does not reallocate");
        } else {
            string_reserve_additional(&mut s, n);
            kani::assert(s.capacity() - len >= n, "R05 string$reserve_additional makes room for n more bytes");
        }
    }
    kani::assert(s.capacity() >= cap, "R05 reserving never shrinks");
    let k: usize = kani::any();
    kani::assert(s.len() == len && (k >= len || s.as_bytes()[k] == b[k]), "R05 reserving keeps the text");
}
