//! Contracts of CxxVector<T> and its iterators (property R01).
//!
//! C++ side contract (requires/ensures of each foreign symbol): a
//! std::vector<T> is (data, len); `size` returns len; `get_unchecked(v, i)`
//! REQUIRES i < len and returns &data[i]; `push_back` takes over the value
//! behind the pointer; `pop_back` REQUIRES len > 0 and moves the last element out.
#![allow(dead_code, missing_docs, static_mut_refs, improper_ctypes_definitions)]
use super::*;
use crate::verif_ghost::link_contracts;

#[repr(C)]
struct GVec<T> {
    data: *mut T,
    len: usize,
}

macro_rules! vector_contracts {
    ($m:ident, $ty:ty, $seg:literal) => {
        mod $m {
            use super::*;
            pub type T = $ty;
            pub static mut PUSHES: usize = 0;
            pub static mut PUSHED: Option<(usize, T)> = None;
            pub static mut POPS: usize = 0;
            pub static mut GETS: usize = 0;
            pub fn g(v: *const CxxVector<T>) -> *mut GVec<T> {
                v as *mut GVec<T>
            }
            #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$size")]
            unsafe extern "C" fn size(v: &CxxVector<T>) -> usize {
                unsafe { (*g(v)).len }
            }
            #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$get_unchecked")]
            unsafe extern "C" fn get_unchecked(v: *mut CxxVector<T>, pos: usize) -> *mut T {
                unsafe {
                    kani::assert(pos < (*g(v)).len, "R01 element access only within bounds");
                    GETS += 1;
                    (*g(v)).data.wrapping_add(pos)
                }
            }
            #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$push_back")]
            unsafe extern "C" fn push_back(v: Pin<&mut CxxVector<T>>, value: &mut ManuallyDrop<T>) {
                unsafe {
                    PUSHES += 1;
                    PUSHED = Some((&*v as *const _ as usize, **value));
                    (*g(&*v)).len += 1;
                }
            }
            #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$pop_back")]
            unsafe extern "C" fn pop_back(v: Pin<&mut CxxVector<T>>, out: &mut MaybeUninit<T>) {
                unsafe {
                    let g = g(&*v);
                    kani::assert((*g).len > 0, "R01 pop_back only on a non-empty vector");
                    POPS += 1;
                    (*g).len -= 1;
                    out.write(*(*g).data.add((*g).len));
                }
            }
            #[export_name = concat!("cxxbridge1$std$vector$", $seg, "$new")]
            unsafe extern "C" fn new() -> *mut CxxVector<T> {
                alloc::boxed::Box::into_raw(alloc::boxed::Box::new(GVec::<T> { data: core::ptr::null_mut(), len: 0 })).cast()
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$raw")]
            unsafe extern "C" fn raw(this: *mut MaybeUninit<*mut c_void>, raw: *mut CxxVector<T>) {
                unsafe { (*this).write(raw.cast()); }
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$get")]
            unsafe extern "C" fn get(this: *const MaybeUninit<*mut c_void>) -> *const CxxVector<T> {
                unsafe { (*this).assume_init() as *const CxxVector<T> }
            }
            pub fn link() {
                link_contracts!(size, get_unchecked, push_back, pop_back, new, raw, get);
            }
        }
    };
}
vector_contracts!(c_u16, u16, "u16");
vector_contracts!(c_u64, u64, "u64");
vector_contracts!(c_i32, i32, "i32");

macro_rules! vector_harnesses {
    ($m:ident, $ty:ty, $len_get:ident, $get:ident, $slice:ident, $iter:ident, $iter_mut:ident, $push:ident, $pop:ident, $new:ident) => {
        /// len/is_empty for every vector.
        #[kani::proof]
        fn $len_get() {
            $m::link();
            let g = GVec::<$ty> { data: core::ptr::null_mut(), len: kani::any() };
            let v = unsafe { &*(&g as *const GVec<$ty> as *const CxxVector<$ty>) };
            kani::assert(v.len() == g.len, "R01 len is the C++ size");
            kani::assert(v.is_empty() == (g.len == 0), "R01 is_empty iff size is 0");
            kani::assert(v.iter().len() == g.len && v.iter().size_hint() == (g.len, Some(g.len)), "R01 iter() is exact-size");
        }
        /// get/index_mut for every length and every index.
        #[kani::proof]
        fn $get() {
            $m::link();
            let len: usize = kani::any();
            kani::assume(len <= isize::MAX as usize / core::mem::size_of::<$ty>());
            let mut cells: [$ty; 3] = kani::any();
            // The element asked for lies in `cells`; the vector's data pointer is
            // arbitrary, so that element `pos` is cells[1] for an arbitrary pos.
            let pos: usize = kani::any();
            let at: *mut $ty = &mut cells[1];
            let mut g = GVec::<$ty> { data: at.wrapping_sub(pos), len };
            let gp = &mut g as *mut GVec<$ty>;
            let v = unsafe { &*(gp as *const CxxVector<$ty>) };
            match v.get(pos) {
                None => kani::assert(pos >= len, "R01 get is None only out of bounds"),
                Some(r) => kani::assert(pos < len && r as *const $ty == at as *const $ty, "R01 get(i) is element i"),
            }
            let vm = unsafe { Pin::new_unchecked(&mut *(gp as *mut CxxVector<$ty>)) };
            match vm.index_mut(pos) {
                None => kani::assert(pos >= len, "R01 index_mut is None only out of bounds"),
                Some(r) => kani::assert(pos < len && &*r as *const $ty == at as *const $ty, "R01 index_mut(i) is element i"),
            }
            if pos < len {
                unsafe {
                    kani::assert(v.get_unchecked(pos) as *const $ty == at as *const $ty, "R01 get_unchecked(i) is element i");
                    let vm = Pin::new_unchecked(&mut *(gp as *mut CxxVector<$ty>));
                    kani::assert(&*vm.index_unchecked_mut(pos) as *const $ty == at as *const $ty, "R01 index_unchecked_mut(i) is element i");
                }
            }
            kani::cover(pos < len, "cover: in bounds");
            kani::cover(pos >= len, "cover: out of bounds");
        }
        /// as_slice/as_mut_slice for every length; data() of an empty vector is never used.
        #[kani::proof]
        fn $slice() {
            $m::link();
            let len: usize = kani::any();
            kani::assume(len <= isize::MAX as usize / core::mem::size_of::<$ty>());
            kani::assume(len <= (1 << 40) / core::mem::size_of::<$ty>());
            // data() of an empty vector is anything at all, even null or misaligned.
            let data = if len == 0 { kani::any::<usize>() as *mut $ty } else { crate::verif_ghost::fresh::<$ty>(len) };
            let mut g = GVec::<$ty> { data, len };
            let gp = &mut g as *mut GVec<$ty>;
            let s = unsafe { &*(gp as *const CxxVector<$ty>) }.as_slice();
            kani::assert(s.len() == len, "R01 as_slice has the vector's length");
            kani::assert(!s.as_ptr().is_null(), "R01 as_slice pointer is non-null even when empty");
            kani::assert(len == 0 || s.as_ptr() == data as *const $ty, "R01 as_slice starts at element 0");
            let s = unsafe { Pin::new_unchecked(&mut *(gp as *mut CxxVector<$ty>)) }.as_mut_slice();
            kani::assert(s.len() == len, "R01 as_mut_slice has the vector's length");
            kani::assert(!s.as_ptr().is_null(), "R01 as_mut_slice pointer is non-null even when empty");
            kani::assert(len == 0 || s.as_ptr() == data as *const $ty, "R01 as_mut_slice starts at element 0");
            kani::cover(len == 0, "cover: empty");
            kani::cover(len > 1, "cover: many");
        }
        /// Iteration visits each element once, in order, and stays ended. (bounded: len <= 4)
        #[kani::proof]
        #[kani::unwind(7)]
        fn $iter() {
            $m::link();
            let mut cells: [$ty; 4] = kani::any();
            let base = cells.as_mut_ptr();
            let len: usize = kani::any();
            kani::assume(len <= 4);
            let g = GVec::<$ty> { data: base, len };
            let v = unsafe { &*(&g as *const GVec<$ty> as *const CxxVector<$ty>) };
            let mut it = if kani::any() { v.iter() } else { v.into_iter() };
            let mut i = 0;
            while i < len {
                kani::assert(it.len() == len - i && it.size_hint() == (len - i, Some(len - i)), "R01 iter len counts what is left");
                match it.next() {
                    None => kani::assert(false, "R01 iter does not end early"),
                    Some(r) => kani::assert(r as *const $ty == base.wrapping_add(i) as *const $ty, "R01 iter yields element i at step i"),
                }
                i += 1;
            }
            kani::assert(it.len() == 0 && it.size_hint() == (0, Some(0)), "R01 iter is empty at the end");
            kani::assert(it.next().is_none(), "R01 iter ends after len elements");
            kani::assert(it.next().is_none() && it.len() == 0, "R01 iter stays ended");
        }
        #[kani::proof]
        #[kani::unwind(7)]
        fn $iter_mut() {
            $m::link();
            let mut cells: [$ty; 4] = kani::any();
            let base = cells.as_mut_ptr();
            let len: usize = kani::any();
            kani::assume(len <= 4);
            let mut g = GVec::<$ty> { data: base, len };
            let v = unsafe { Pin::new_unchecked(&mut *(&mut g as *mut GVec<$ty> as *mut CxxVector<$ty>)) };
            let mut it = if kani::any() { v.iter_mut() } else { v.into_iter() };
            let mut i = 0;
            while i < len {
                kani::assert(it.len() == len - i && it.size_hint() == (len - i, Some(len - i)), "R01 iter_mut len counts what is left");
                match it.next() {
                    None => kani::assert(false, "R01 iter_mut does not end early"),
                    Some(r) => kani::assert(&*r as *const $ty == base.wrapping_add(i) as *const $ty, "R01 iter_mut yields element i at step i"),
                }
                i += 1;
            }
            kani::assert(it.len() == 0 && it.size_hint() == (0, Some(0)), "R01 iter_mut is empty at the end");
            kani::assert(it.next().is_none(), "R01 iter_mut ends after len elements");
            kani::assert(it.next().is_none() && it.len() == 0, "R01 iter_mut stays ended");
        }
        #[kani::proof]
        fn $push() {
            $m::link();
            let len: usize = kani::any();
            kani::assume(len < usize::MAX);
            let mut g = GVec::<$ty> { data: core::ptr::null_mut(), len };
            let gp = &mut g as *mut GVec<$ty>;
            let v = unsafe { Pin::new_unchecked(&mut *(gp as *mut CxxVector<$ty>)) };
            let x: $ty = kani::any();
            v.push(x);
            unsafe {
                kani::assert($m::PUSHES == 1, "R01 push appends exactly once");
                kani::assert($m::PUSHED == Some((gp as usize, x)), "R01 push appends the value to this vector");
                kani::assert((*gp).len == len + 1, "R01 push grows len by one");
            }
        }
        #[kani::proof]
        fn $pop() {
            $m::link();
            let mut cells: [$ty; 4] = kani::any();
            let len: usize = kani::any();
            kani::assume(len <= 4);
            let mut g = GVec::<$ty> { data: cells.as_mut_ptr(), len };
            let gp = &mut g as *mut GVec<$ty>;
            let v = unsafe { Pin::new_unchecked(&mut *(gp as *mut CxxVector<$ty>)) };
            let r = v.pop();
            unsafe {
                if len == 0 {
                    kani::assert(r.is_none() && $m::POPS == 0, "R01 pop on empty is None and touches nothing");
                } else {
                    kani::assert($m::POPS == 1 && (*gp).len == len - 1, "R01 pop removes exactly one");
                    kani::assert(r == Some(cells[len - 1]), "R01 pop returns the last element");
                }
            }
        }
        #[kani::proof]
        fn $new() {
            $m::link();
            let v = CxxVector::<$ty>::new();
            kani::assert(!v.is_null() && v.len() == 0 && v.is_empty(), "R01 new is an empty non-null vector");
            kani::assert(v.as_slice().is_empty() && v.iter().next().is_none(), "R01 new has no elements");
            core::mem::forget(v);
        }
    };
}
vector_harnesses!(c_u16, u16, r01_len_u16, r01_get_u16, r01_slice_u16, r01_iter_u16_bounded, r01_iter_mut_u16_bounded, r01_push_u16, r01_pop_u16, r01_new_u16);
vector_harnesses!(c_u64, u64, r01_len_u64, r01_get_u64, r01_slice_u64, r01_iter_u64_bounded, r01_iter_mut_u64_bounded, r01_push_u64, r01_pop_u64, r01_new_u64);
vector_harnesses!(c_i32, i32, r01_len_i32, r01_get_i32, r01_slice_i32, r01_iter_i32_bounded, r01_iter_mut_i32_bounded, r01_push_i32, r01_pop_i32, r01_new_i32);

/// A value pushed is handed over to C++ (move + destroy there): Rust must not
/// drop it as well. A value popped is owned by the caller: dropped once.
mod ownership {
    use super::*;
    static mut DROPS: usize = 0;
    static mut TAKEN: usize = 0;
    pub struct Tok(u32);
    impl Drop for Tok {
        fn drop(&mut self) {
            unsafe { DROPS += 1 }
        }
    }
    unsafe impl ExternType for Tok {
        type Id = ();
        type Kind = Trivial;
    }
    unsafe impl VectorElement for Tok {
        fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("Tok")
        }
        fn __vector_new() -> *mut CxxVector<Self> {
            core::ptr::null_mut()
        }
        fn __vector_size(v: &CxxVector<Self>) -> usize {
            unsafe { (*(v as *const _ as *const GVec<Tok>)).len }
        }
        unsafe fn __get_unchecked(v: *mut CxxVector<Self>, pos: usize) -> *mut Self {
            unsafe { (*(v as *const GVec<Tok>)).data.wrapping_add(pos) }
        }
        unsafe fn __push_back(_v: Pin<&mut CxxVector<Self>>, value: &mut ManuallyDrop<Self>) {
            unsafe { TAKEN = value.0 as usize };
        }
        unsafe fn __pop_back(v: Pin<&mut CxxVector<Self>>, out: &mut MaybeUninit<Self>) {
            unsafe {
                let g = &*v as *const _ as *mut GVec<Tok>;
                (*g).len -= 1;
                out.write(Tok(kani::any()));
            }
        }
        fn __unique_ptr_null() -> MaybeUninit<*mut c_void> {
            MaybeUninit::uninit()
        }
        unsafe fn __unique_ptr_raw(raw: *mut CxxVector<Self>) -> MaybeUninit<*mut c_void> {
            MaybeUninit::new(raw.cast())
        }
        unsafe fn __unique_ptr_get(repr: MaybeUninit<*mut c_void>) -> *const CxxVector<Self> {
            unsafe { repr.assume_init() as *const CxxVector<Self> }
        }
        unsafe fn __unique_ptr_release(repr: MaybeUninit<*mut c_void>) -> *mut CxxVector<Self> {
            unsafe { repr.assume_init() as *mut CxxVector<Self> }
        }
        unsafe fn __unique_ptr_drop(_: MaybeUninit<*mut c_void>) {}
    }
    #[kani::proof]
    fn r01_push_transfers_ownership() {
        let mut g = GVec::<Tok> { data: core::ptr::null_mut(), len: 0 };
        let v = unsafe { Pin::new_unchecked(&mut *(&mut g as *mut GVec<Tok> as *mut CxxVector<Tok>)) };
        let x: u32 = kani::any();
        v.push(Tok(x));
        unsafe {
            kani::assert(DROPS == 0, "R01 a pushed value is not dropped on the Rust side");
            kani::assert(TAKEN == x as usize, "R01 the pushed value reaches C++");
        }
    }
    #[kani::proof]
    fn r01_pop_transfers_ownership() {
        let len: usize = kani::any();
        let mut g = GVec::<Tok> { data: core::ptr::null_mut(), len };
        let v = unsafe { Pin::new_unchecked(&mut *(&mut g as *mut GVec<Tok> as *mut CxxVector<Tok>)) };
        let r = v.pop();
        unsafe { kani::assert(DROPS == 0, "R01 pop does not drop the value it returns") };
        kani::assert(r.is_some() == (len > 0), "R01 pop is Some iff non-empty");
        drop(r);
        unsafe { kani::assert(DROPS == if len > 0 { 1 } else { 0 }, "R01 a popped value is dropped once by its owner") };
    }
}
