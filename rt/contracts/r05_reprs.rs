//! Contracts of the Rust representations shared with C++ (property R05):
//! RustStr, RustSlice, RustString, RustVec<T>.
#![allow(dead_code, missing_docs, static_mut_refs)]
use super::*;
use crate::rust_slice::RustSlice;
use crate::rust_str::RustStr;
use crate::verif_ghost::fresh;
use alloc::boxed::Box;
use core::mem::{align_of, size_of};
use core::str;

fn slice_of<'a, T>(len: usize) -> &'a mut [T] {
    kani::assume(len <= (1 << 40) / size_of::<T>());
    let p = if len == 0 { core::ptr::NonNull::<T>::dangling().as_ptr() } else { fresh::<T>(len) };
    unsafe { core::slice::from_raw_parts_mut(p, len) }
}

#[kani::proof]
fn r05_str_round_trip() {
    let b = slice_of::<u8>(kani::any());
    let (p, n) = (b.as_ptr(), b.len());
    let s = unsafe { str::from_utf8_unchecked(b) };
    let r = RustStr::from(s);
    kani::assert(size_of::<RustStr>() == 2 * size_of::<usize>() && align_of::<RustStr>() == align_of::<usize>(), "R05 Str is two words");
    let t = unsafe { r.as_str() };
    kani::assert(t.as_ptr() == p && t.len() == n, "R05 &str survives the round trip");
}
macro_rules! slice_rt {
    ($h:ident, $t:ty) => {
        #[kani::proof]
        fn $h() {
            let b = slice_of::<$t>(kani::any());
            let (p, n) = (b.as_ptr(), b.len());
            let r = if kani::any() { RustSlice::from_ref(b) } else { RustSlice::from_mut(b) };
            kani::assert(size_of::<RustSlice>() == 2 * size_of::<usize>(), "R05 Slice is two words");
            kani::assert(r.as_non_null_ptr::<$t>().as_ptr() as *const $t == p && r.len() == n, "R05 Slice stores pointer and length");
            if kani::any() {
                let t = unsafe { r.as_slice::<$t>() };
                kani::assert(t.as_ptr() == p && t.len() == n, "R05 &[T] survives the round trip");
            } else {
                let t = unsafe { r.as_mut_slice::<$t>() };
                kani::assert(t.as_ptr() == p && t.len() == n, "R05 &mut [T] survives the round trip");
            }
        }
    };
}
slice_rt!(r05_slice_u8, u8);
slice_rt!(r05_slice_u32, u32);
slice_rt!(r05_slice_u64x3, [u64; 3]);

#[kani::proof]
fn r05_slice_empty_is_non_null() {
    let e: &[u64] = &[];
    let r = RustSlice::from_ref(e);
    kani::assert(r.len() == 0, "R05 empty slice has length 0");
    let t = unsafe { r.as_slice::<u64>() };
    kani::assert(t.is_empty() && !t.as_ptr().is_null() && t.as_ptr() as usize % 8 == 0, "R05 empty slice stays well-formed");
}

/// A String/Vec of arbitrary (ptr, capacity, length).
fn any_vec<T>() -> (Vec<T>, *mut T, usize, usize) {
    let (len, cap): (usize, usize) = (kani::any(), kani::any());
    kani::assume(len <= cap && cap <= (1 << 40) / size_of::<T>());
    if cap == 0 {
        let mut v = Vec::new();
        let p = v.as_mut_ptr();
        (v, p, 0, 0)
    } else {
        let p = fresh::<T>(cap);
        (unsafe { Vec::from_raw_parts(p, len, cap) }, p, len, cap)
    }
}
fn is<T>(v: &Vec<T>, p: *mut T, len: usize, cap: usize) -> bool {
    v.as_ptr() == p as *const T && v.len() == len && v.capacity() == cap
}

#[kani::proof]
fn r05_string_round_trip() {
    let (v, p, len, cap) = any_vec::<u8>();
    let s = unsafe { String::from_utf8_unchecked(v) };
    let at = &s as *const String as usize;
    kani::assert(RustString::from_ref(&s) as *const _ as usize == at, "R05 &String is passed by address");
    kani::assert(RustString::from_ref(&s).as_string() as *const _ as usize == at, "R05 &String survives the round trip");
    let mut s = s;
    let at = &s as *const String as usize;
    kani::assert(RustString::from_mut(&mut s).as_mut_string() as *mut _ as usize == at, "R05 &mut String survives the round trip");
    let r = RustString::from(s);
    kani::assert(size_of::<RustString>() == 3 * size_of::<usize>(), "R05 String is three words");
    let t = r.into_string();
    kani::assert(is(&t.into_bytes(), p, len, cap), "R05 String survives the round trip: same buffer, length, capacity");
}

static mut DROPS: usize = 0;
struct Tok(u64);
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
#[kani::proof]
#[kani::unwind(4)]
fn r05_vec_ownership_bounded() {
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let mut v = Vec::with_capacity(2);
    let mut i = 0;
    while i < n {
        v.push(Tok(i as u64));
        i += 1;
    }
    let r = RustVec::from(v);
    unsafe { kani::assert(DROPS == 0, "R05 converting a Vec drops no element") };
    if kani::any() {
        let v = r.into_vec();
        unsafe { kani::assert(DROPS == 0, "R05 converting back drops no element") };
        drop(v);
    } else {
        drop(r);
    }
    unsafe { kani::assert(DROPS == n, "R05 each element is dropped exactly once") };
}

macro_rules! vec_rt {
    ($h:ident, $g:ident, $t:ty) => {
        #[kani::proof]
        fn $h() {
            let (v, p, len, cap) = any_vec::<$t>();
            kani::assert(size_of::<RustVec<$t>>() == 3 * size_of::<usize>(), "R05 Vec is three words");
            let at = &v as *const Vec<$t> as usize;
            kani::assert(RustVec::from_ref(&v) as *const _ as usize == at && RustVec::from_ref(&v).as_vec() as *const _ as usize == at, "R05 &Vec survives the round trip");
            let mut v = v;
            let at = &v as *const Vec<$t> as usize;
            kani::assert(RustVec::from_mut(&mut v).as_mut_vec() as *mut _ as usize == at, "R05 &mut Vec survives the round trip");
            let r = RustVec::from(v);
            kani::assert(r.len() == len && r.capacity() == cap && r.as_ptr() == p as *const $t, "R05 Vec accessors: same buffer, length, capacity");
            kani::assert(is(&r.into_vec(), p, len, cap), "R05 Vec survives the round trip: same buffer, length, capacity");
        }
        #[kani::proof]
        fn $g() {
            let (v, _p, len, cap) = any_vec::<$t>();
            let mut r = RustVec::from(v);
            let n: usize = kani::any();
            kani::assume(n <= cap);
            unsafe { r.set_len(n) };
            kani::assert(r.len() == n && r.capacity() == cap, "R05 set_len sets exactly the length");
            unsafe { r.set_len(len) };
            let k: usize = kani::any();
            r.truncate(k);
            kani::assert(r.len() == if k < len { k } else { len } && r.capacity() == cap, "R05 truncate keeps min(len, k) elements");
            core::mem::forget(r);
        }
    };
}
vec_rt!(r05_vec_u8, r05_vec_len_u8, u8);
vec_rt!(r05_vec_u32, r05_vec_len_u32, u32);
vec_rt!(r05_vec_u64, r05_vec_len_u64, u64);

#[kani::proof]
fn r05_vec_new() {
    let r = RustVec::<u32>::new();
    kani::assert(r.len() == 0 && r.capacity() == 0, "R05 Vec::new is empty");
    kani::assert(!r.as_ptr().is_null() && r.as_ptr() as usize % 4 == 0, "R05 Vec::new data is well-formed");
}
/// reserve_total(n): room for n elements in total, length and content kept.
/// (bounded: capacities up to 4)
#[kani::proof]
#[kani::unwind(6)]
fn r05_vec_reserve_total_bounded() {
    let cap: usize = kani::any();
    let len: usize = kani::any();
    let n: usize = kani::any();
    kani::assume(cap <= 4 && len <= cap && n <= 6);
    let mut v: Vec<u32> = Vec::with_capacity(cap);
    let x: [u32; 4] = kani::any();
    let mut i = 0;
    while i < len {
        v.push(x[i]);
        i += 1;
    }
    let before = v.capacity();
    let mut r = RustVec::from(v);
    r.reserve_total(n);
    kani::assert(r.len() == len, "R05 reserve_total keeps the length");
    kani::assert(r.capacity() >= n && r.capacity() >= before, "R05 reserve_total makes room for n elements in total");
    kani::assert(n > before || r.capacity() == before, "R05 reserve_total within capacity does not reallocate");
    let k: usize = kani::any();
    kani::assert(k >= len || r.as_vec()[k] == x[k], "R05 reserve_total keeps the elements");
    kani::cover(n > before, "cover: grows");
}

#[kani::proof]
#[kani::unwind(4)]
fn r05_vec_string_bounded() {
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let mut v: Vec<String> = Vec::with_capacity(2);
    let mut i = 0;
    while i < n {
        v.push(String::new());
        i += 1;
    }
    let (p, cap) = (v.as_mut_ptr(), v.capacity());
    let at = &v as *const _ as usize;
    kani::assert(RustVec::from_ref_vec_string(&v) as *const _ as usize == at && RustVec::from_ref_vec_string(&v).as_vec_string() as *const _ as usize == at, "R05 &Vec<String> survives the round trip");
    kani::assert(RustVec::from_mut_vec_string(&mut v).as_mut_vec_string() as *mut _ as usize == at, "R05 &mut Vec<String> survives the round trip");
    let r = RustVec::from_vec_string(v);
    kani::assert(r.len() == n && r.capacity() == cap && r.as_ptr() as usize == p as usize, "R05 Vec<String> becomes Vec<rust::String> in place");
    let w = r.into_vec_string();
    kani::assert(is(&w, p, n, cap), "R05 Vec<String> survives the round trip");
}

#[kani::proof]
fn r05_box_round_trip() {
    let x: u64 = kani::any();
    let b = Box::new(x);
    let p = Box::into_raw(b);
    kani::assert(size_of::<Box<u64>>() == size_of::<usize>(), "R05 Box is one word");
    let b = unsafe { Box::from_raw(p) };
    kani::assert(*b == x, "R05 Box survives the round trip");
}
