//! Contracts of UniquePtr<T> (property R02).
#![allow(dead_code, missing_docs, static_mut_refs, improper_ctypes_definitions)]
use super::*;
use crate::verif_ghost::{link_contracts, never, Rec, Sink};
use crate::kind::Trivial;
use alloc::boxed::Box;

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub(crate) struct Obj(pub u32);
impl Display for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.0 == 7 { "seven" } else { "other" })
    }
}
unsafe impl ExternType for Obj {
    type Id = ();
    type Kind = Trivial;
}

// Ghost state: how often each C++ operation ran, and on which pointer.
static mut DROPS: usize = 0;
static mut DROPPED: usize = 0;
static mut RELEASES: usize = 0;
static mut NEWS: usize = 0;

// Contract of the C++ side for a type T: a std::unique_ptr<T> is one pointer;
// `null`, `raw`, `get`, `release` and `drop` do what their C++ names say.
unsafe impl UniquePtrTarget for Obj {
    fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Obj")
    }
    fn __null() -> MaybeUninit<*mut c_void> {
        MaybeUninit::new(core::ptr::null_mut())
    }
    fn __new(value: Self) -> MaybeUninit<*mut c_void> {
        unsafe { NEWS += 1 };
        MaybeUninit::new(Box::into_raw(Box::new(value)).cast())
    }
    unsafe fn __raw(raw: *mut Self) -> MaybeUninit<*mut c_void> {
        MaybeUninit::new(raw.cast())
    }
    unsafe fn __get(repr: MaybeUninit<*mut c_void>) -> *const Self {
        unsafe { repr.assume_init() as *const Self }
    }
    unsafe fn __release(repr: MaybeUninit<*mut c_void>) -> *mut Self {
        unsafe {
            RELEASES += 1;
            repr.assume_init() as *mut Self
        }
    }
    unsafe fn __drop(repr: MaybeUninit<*mut c_void>) {
        unsafe {
            DROPS += 1;
            DROPPED = repr.assume_init() as usize;
        }
    }
}

/// An arbitrary owner: null or pointing at `cell`.
fn any_owner(cell: &mut Obj) -> (UniquePtr<Obj>, *mut Obj) {
    let p: *mut Obj = if kani::any() { core::ptr::null_mut() } else { cell };
    (unsafe { UniquePtr::from_raw(p) }, p)
}

#[kani::proof]
fn r02_null() {
    let p = UniquePtr::<Obj>::null();
    kani::assert(p.is_null(), "R02 null().is_null()");
    kani::assert(p.as_ref().is_none(), "R02 null().as_ref() is None");
    kani::assert(p.as_ptr().is_null() && p.as_mut_ptr().is_null(), "R02 null().as_ptr() is null");
    let mut p = p;
    kani::assert(p.as_mut().is_none(), "R02 null().as_mut() is None");
    drop(p);
    unsafe {
        kani::assert(RELEASES == 0, "R02 null owner is never released");
        kani::assert(DROPS <= 1 && DROPPED == 0, "R02 destroying a null owner deletes nothing");
    }
}

#[kani::proof]
fn r02_owner_observers_and_drop() {
    let mut cell = Obj(kani::any());
    let v = cell.0;
    let (mut u, p) = any_owner(&mut cell);
    kani::assert(u.as_ptr() == p as *const Obj, "R02 as_ptr is the owned pointer");
    kani::assert(u.as_mut_ptr() == p, "R02 as_mut_ptr is the owned pointer");
    kani::assert(u.is_null() == p.is_null(), "R02 is_null iff the owned pointer is null");
    match u.as_ref() {
        None => kani::assert(p.is_null(), "R02 as_ref None only for null"),
        Some(r) => kani::assert(r as *const Obj == p as *const Obj && r.0 == v, "R02 as_ref is the owned object"),
    }
    match u.as_mut() {
        None => kani::assert(p.is_null(), "R02 as_mut None only for null"),
        Some(r) => kani::assert(&*r as *const Obj == p as *const Obj, "R02 as_mut is the owned object"),
    }
    unsafe { kani::assert(DROPS == 0 && RELEASES == 0, "R02 observing does not end ownership") };
    drop(u);
    unsafe {
        kani::assert(RELEASES == 0, "R02 drop does not release");
        kani::assert(DROPPED == p as usize, "R02 drop deletes the owned pointer");
        kani::assert(DROPS == 1 || (p.is_null() && DROPS == 0), "R02 drop deletes exactly once");
    }
    kani::cover(p.is_null(), "cover: null owner");
    kani::cover(!p.is_null(), "cover: non-null owner");
}

#[kani::proof]
fn r02_into_raw() {
    let mut cell = Obj(kani::any());
    let (u, p) = any_owner(&mut cell);
    let q = u.into_raw();
    kani::assert(q == p, "R02 into_raw returns the owned pointer");
    unsafe {
        kani::assert(DROPS == 0 || DROPPED == 0, "R02 into_raw deletes nothing");
        kani::assert(RELEASES <= 1, "R02 into_raw releases at most once");
        let again = UniquePtr::from_raw(q);
        kani::assert(again.as_ptr() == p as *const Obj, "R02 from_raw(into_raw(p)) owns p");
        DROPS = 0;
        drop(again);
        kani::assert(DROPPED == p as usize, "R02 reclaimed pointer is deleted");
        kani::assert(DROPS == 1 || (p.is_null() && DROPS == 0), "R02 reclaimed pointer deleted once");
    }
}

#[kani::proof]
fn r02_new() {
    let v: u32 = kani::any();
    let u = UniquePtr::new(Obj(v));
    unsafe { kani::assert(NEWS == 1, "R02 new constructs one object") };
    kani::assert(!u.is_null(), "R02 new is not null");
    kani::assert(u.as_ref().unwrap().0 == v, "R02 new holds the value");
    let p = u.as_ptr() as usize;
    drop(u);
    unsafe { kani::assert(DROPS == 1 && DROPPED == p, "R02 new object deleted exactly once") };
}

#[kani::proof]
fn r02_deref_nonnull() {
    let mut cell = Obj(kani::any());
    let p: *mut Obj = &mut cell;
    let mut u = unsafe { UniquePtr::from_raw(p) };
    kani::assert(&*u as *const Obj == p as *const Obj, "R02 deref is the owned object");
    kani::assert(&mut *u as *mut Obj == p, "R02 deref_mut is the owned object");
    kani::assert(&*u.pin_mut() as *const Obj == p as *const Obj, "R02 pin_mut is the owned object");
    let new: u32 = kani::any();
    u.pin_mut().get_mut().0 = new;
    kani::assert(u.0 == new, "R02 writes through pin_mut reach the owned object");
    unsafe { kani::assert(DROPS == 0 && RELEASES == 0, "R02 deref keeps ownership") };
}

#[kani::proof]
#[kani::should_panic]
fn r02_deref_null_panics() {
    let u = UniquePtr::<Obj>::null();
    let _r = &*u;
    never();
}
#[kani::proof]
#[kani::should_panic]
fn r02_deref_mut_null_panics() {
    let mut u = UniquePtr::<Obj>::null();
    let _r = &mut *u;
    never();
}
#[kani::proof]
#[kani::should_panic]
fn r02_pin_mut_null_panics() {
    let mut u = UniquePtr::<Obj>::null();
    let _r = u.pin_mut();
    never();
}

#[kani::proof]
#[kani::unwind(20)]
fn r02_compare_hash() {
    let (mut c1, mut c2) = (Obj(kani::any()), Obj(kani::any()));
    let (a, b) = (c1.0, c2.0);
    let (u1, p1) = any_owner(&mut c1);
    let (u2, p2) = any_owner(&mut c2);
    let o1 = if p1.is_null() { None } else { Some(a) };
    let o2 = if p2.is_null() { None } else { Some(b) };
    kani::assert((u1 == u2) == (o1 == o2), "R02 == compares targets, null only equals null");
    kani::assert(u1.cmp(&u2) == o1.cmp(&o2), "R02 cmp orders by target, null first");
    kani::assert(u1.partial_cmp(&u2) == o1.partial_cmp(&o2), "R02 partial_cmp orders by target, null first");
    let (mut h1, mut h2) = (Rec::new(), Rec::new());
    u1.hash(&mut h1);
    o1.map(Obj).as_ref().hash(&mut h2);
    kani::assert(h1.same(&h2), "R02 hash is that of the optional target");
}

struct Weird(bool);
impl PartialEq for Weird {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
impl PartialOrd for Weird {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        None
    }
}
unsafe impl UniquePtrTarget for Weird {
    fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Weird")
    }
    fn __null() -> MaybeUninit<*mut c_void> {
        MaybeUninit::new(core::ptr::null_mut())
    }
    unsafe fn __raw(raw: *mut Self) -> MaybeUninit<*mut c_void> {
        MaybeUninit::new(raw.cast())
    }
    unsafe fn __get(repr: MaybeUninit<*mut c_void>) -> *const Self {
        unsafe { repr.assume_init() as *const Self }
    }
    unsafe fn __release(repr: MaybeUninit<*mut c_void>) -> *mut Self {
        unsafe { repr.assume_init() as *mut Self }
    }
    unsafe fn __drop(_: MaybeUninit<*mut c_void>) {}
}

/// The target's own (even irreflexive) comparison decides, never pointer identity.
#[kani::proof]
fn r02_compare_uses_target_impl() {
    let mut c = Weird(true);
    let p: *mut Weird = &mut c;
    let (u1, u2) = unsafe { (UniquePtr::from_raw(p), UniquePtr::from_raw(p)) };
    kani::assert(u1 != u2, "R02 == delegates to the target's ==");
    kani::assert(u1.partial_cmp(&u2).is_none(), "R02 partial_cmp delegates to the target's");
}

#[kani::proof]
#[kani::unwind(12)]
fn r02_fmt() {
    use core::fmt::Write;
    let v: u32 = kani::any();
    let mut c = Obj(v);
    let (u, p) = any_owner(&mut c);
    let mut s = Sink::<16>::new();
    write!(s, "{}", u).unwrap();
    let want: &[u8] = if p.is_null() { b"nullptr" } else if v == 7 { b"seven" } else { b"other" };
    kani::assert(s.bytes() == want, "R02 Display prints nullptr or the target");
}
#[kani::proof]
#[kani::unwind(12)]
fn r02_fmt_debug_null() {
    use core::fmt::Write;
    let u = UniquePtr::<Obj>::null();
    let mut s = Sink::<16>::new();
    write!(s, "{:?}", u).unwrap();
    kani::assert(s.bytes() == b"nullptr", "R02 Debug of null prints nullptr");
}

// --- UniquePtr<CxxString>: the runtime's own target, over the C++ symbols.
static mut S_LOG: [(u8, usize); 4] = [(0, 0); 4];
static mut S_N: usize = 0;
fn slog(op: u8, p: usize) {
    unsafe {
        kani::assert(S_N < 4, "R02 no unexpected extra C++ call");
        S_LOG[S_N] = (op, p);
        S_N += 1;
    }
}
#[export_name = "cxxbridge1$unique_ptr$std$string$null"]
unsafe extern "C" fn s_null(this: *mut MaybeUninit<*mut c_void>) {
    unsafe { (*this).write(core::ptr::null_mut()); }
}
#[export_name = "cxxbridge1$unique_ptr$std$string$raw"]
unsafe extern "C" fn s_raw(this: *mut MaybeUninit<*mut c_void>, raw: *mut CxxString) {
    unsafe { (*this).write(raw.cast()); }
}
#[export_name = "cxxbridge1$unique_ptr$std$string$get"]
unsafe extern "C" fn s_get(this: *const MaybeUninit<*mut c_void>) -> *const CxxString {
    unsafe { (*this).assume_init() as *const CxxString }
}
#[export_name = "cxxbridge1$unique_ptr$std$string$release"]
unsafe extern "C" fn s_release(this: *mut MaybeUninit<*mut c_void>) -> *mut CxxString {
    unsafe {
        let p = (*this).assume_init();
        slog(1, p as usize);
        (*this).write(core::ptr::null_mut());
        p as *mut CxxString
    }
}
#[export_name = "cxxbridge1$unique_ptr$std$string$drop"]
unsafe extern "C" fn s_drop(this: *mut MaybeUninit<*mut c_void>) {
    unsafe { slog(2, (*this).assume_init() as usize) }
}
fn link_string() {
    link_contracts!(s_null, s_raw, s_get, s_release, s_drop);
}

#[kani::proof]
fn r02_cxx_string_owner() {
    link_string();
    let mut mem = [0usize; 4];
    let p: *mut CxxString = if kani::any() { core::ptr::null_mut() } else { mem.as_mut_ptr().cast() };
    let u = unsafe { UniquePtr::<CxxString>::from_raw(p) };
    kani::assert(u.as_ptr() == p as *const CxxString, "R02 UniquePtr<CxxString> owns the given pointer");
    kani::assert(u.is_null() == p.is_null(), "R02 UniquePtr<CxxString> is_null");
    if kani::any() {
        let q = u.into_raw();
        kani::assert(q == p, "R02 UniquePtr<CxxString> into_raw");
        unsafe { kani::assert(S_N == 1 && S_LOG[0] == (1, p as usize), "R02 into_raw: one release, no delete") };
    } else {
        drop(u);
        unsafe { kani::assert(S_N == 1 && S_LOG[0] == (2, p as usize), "R02 drop: one delete of the owned pointer") };
    }
}

#[kani::proof]
fn r02_cxx_string_null() {
    link_string();
    let u = UniquePtr::<CxxString>::null();
    kani::assert(u.is_null(), "R02 UniquePtr<CxxString>::null is null");
    core::mem::forget(u);
}

// --- UniquePtr<CxxVector<u8>> / <f64>: the vector targets.
macro_rules! vec_target {
    ($m:ident, $ty:ty, $seg:literal, $h:ident) => {
        mod $m {
            use super::*;
            static mut LOG: [(u8, usize); 4] = [(0, 0); 4];
            static mut N: usize = 0;
            fn log(op: u8, p: usize) {
                unsafe {
                    kani::assert(N < 4, "R02 no unexpected extra C++ call");
                    LOG[N] = (op, p);
                    N += 1;
                }
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$null")]
            unsafe extern "C" fn null(this: *mut MaybeUninit<*mut c_void>) {
                unsafe { (*this).write(core::ptr::null_mut()); }
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$raw")]
            unsafe extern "C" fn raw(this: *mut MaybeUninit<*mut c_void>, raw: *mut CxxVector<$ty>) {
                unsafe { (*this).write(raw.cast()); }
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$get")]
            unsafe extern "C" fn get(this: *const MaybeUninit<*mut c_void>) -> *const CxxVector<$ty> {
                unsafe { (*this).assume_init() as *const CxxVector<$ty> }
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$release")]
            unsafe extern "C" fn release(this: *mut MaybeUninit<*mut c_void>) -> *mut CxxVector<$ty> {
                unsafe {
                    let p = (*this).assume_init();
                    log(1, p as usize);
                    (*this).write(core::ptr::null_mut());
                    p as *mut CxxVector<$ty>
                }
            }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$vector$", $seg, "$drop")]
            unsafe extern "C" fn drop_(this: *mut MaybeUninit<*mut c_void>) {
                unsafe { log(2, (*this).assume_init() as usize) }
            }
            #[kani::proof]
            fn $h() {
                link_contracts!(null, raw, get, release, drop_);
                let mut mem = [0usize; 4];
                let p: *mut CxxVector<$ty> = if kani::any() { core::ptr::null_mut() } else { mem.as_mut_ptr().cast() };
                let u = if p.is_null() && kani::any() { UniquePtr::<CxxVector<$ty>>::null() } else { unsafe { UniquePtr::from_raw(p) } };
                kani::assert(u.as_ptr() == p as *const CxxVector<$ty>, "R02 UniquePtr<CxxVector> owns the given pointer");
                if kani::any() {
                    let q = u.into_raw();
                    kani::assert(q == p, "R02 UniquePtr<CxxVector> into_raw");
                    unsafe { kani::assert(N == 1 && LOG[0] == (1, p as usize), "R02 into_raw: one release, no delete") };
                } else {
                    drop(u);
                    unsafe { kani::assert(N == 1 && LOG[0] == (2, p as usize), "R02 drop: one delete of the owned pointer") };
                }
            }
        }
    };
}
vec_target!(vt_u8, u8, "u8", r02_cxx_vector_u8);
vec_target!(vt_usize, usize, "usize", r02_cxx_vector_usize);
vec_target!(vt_f64, f64, "f64", r02_cxx_vector_f64);
vec_target!(vt_str, CxxString, "string", r02_cxx_vector_string);

// --- std::io forwarding.
#[cfg(feature = "std")]
mod io_forward {
    use super::*;
    static mut CALL: (u8, usize, usize) = (0, 0, 0);
    static mut CALLS: usize = 0;
    fn rec(op: u8, a: usize, b: usize) {
        unsafe {
            CALL = (op, a, b);
            CALLS += 1;
        }
    }
    impl Read for Pin<&mut Obj> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            rec(1, buf.as_ptr() as usize, buf.len());
            Ok(3)
        }
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
            rec(2, buf as *mut _ as usize, 0);
            Ok(4)
        }
        fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
            rec(3, buf as *mut _ as usize, 0);
            Ok(5)
        }
        fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
            rec(4, buf.as_ptr() as usize, buf.len());
            Ok(())
        }
    }
    impl Write for Pin<&mut Obj> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            rec(5, buf.as_ptr() as usize, buf.len());
            Ok(6)
        }
        fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
            rec(6, buf.as_ptr() as usize, buf.len());
            Ok(())
        }
        fn write_vectored(&mut self, bufs: &[IoSlice]) -> io::Result<usize> {
            rec(7, bufs.as_ptr() as usize, bufs.len());
            Ok(7)
        }
        fn flush(&mut self) -> io::Result<()> {
            rec(8, 0, 0);
            Ok(())
        }
    }
    impl Seek for Pin<&mut Obj> {
        fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
            match pos {
                SeekFrom::Start(n) => rec(9, 0, n as usize),
                SeekFrom::End(n) => rec(9, 1, n as usize),
                SeekFrom::Current(n) => rec(9, 2, n as usize),
            }
            Ok(8)
        }
        fn rewind(&mut self) -> io::Result<()> {
            rec(10, 0, 0);
            Ok(())
        }
        fn stream_position(&mut self) -> io::Result<u64> {
            rec(11, 0, 0);
            Ok(9)
        }
        fn seek_relative(&mut self, offset: i64) -> io::Result<()> {
            rec(12, 0, offset as usize);
            Ok(())
        }
    }
    fn once(op: u8, a: usize, b: usize) -> bool {
        unsafe { CALLS == 1 && CALL == (op, a, b) }
    }

    #[kani::proof]
    fn r02_io_forward() {
        let mut c = Obj(0);
        let mut u = unsafe { UniquePtr::from_raw(&mut c) };
        let mut arr = [0u8; 8];
        let n: usize = kani::any();
        kani::assume(n <= 8);
        let ap = arr.as_ptr() as usize;
        let which: u8 = kani::any();
        match which {
            0 => { let r = u.read(&mut arr[..n]); kani::assert(matches!(r, Ok(3)) && once(1, ap, n), "R02 Read::read forwards") }
            1 => { let r = u.read_exact(&mut arr[..n]); kani::assert(r.is_ok() && once(4, ap, n), "R02 Read::read_exact forwards") }
            2 => { let r = u.write(&arr[..n]); kani::assert(matches!(r, Ok(6)) && once(5, ap, n), "R02 Write::write forwards") }
            3 => { let r = u.write_all(&arr[..n]); kani::assert(r.is_ok() && once(6, ap, n), "R02 Write::write_all forwards") }
            4 => { let r = u.flush(); kani::assert(r.is_ok() && once(8, 0, 0), "R02 Write::flush forwards") }
            5 => { let k: u64 = kani::any(); let r = u.seek(SeekFrom::Start(k)); kani::assert(matches!(r, Ok(8)) && once(9, 0, k as usize), "R02 Seek::seek forwards") }
            6 => { let k: i64 = kani::any(); let r = u.seek(SeekFrom::End(k)); kani::assert(matches!(r, Ok(8)) && once(9, 1, k as usize), "R02 Seek::seek forwards") }
            7 => { let k: i64 = kani::any(); let r = u.seek(SeekFrom::Current(k)); kani::assert(matches!(r, Ok(8)) && once(9, 2, k as usize), "R02 Seek::seek forwards") }
            8 => { let r = u.rewind(); kani::assert(r.is_ok() && once(10, 0, 0), "R02 Seek::rewind forwards") }
            9 => { let r = u.stream_position(); kani::assert(matches!(r, Ok(9)) && once(11, 0, 0), "R02 Seek::stream_position forwards") }
            10 => { let k: i64 = kani::any(); let r = u.seek_relative(k); kani::assert(r.is_ok() && once(12, 0, k as usize), "R02 Seek::seek_relative forwards") }
            11 => { let mut v = Vec::new(); let vp = &mut v as *mut _ as usize; let r = u.read_to_end(&mut v); kani::assert(matches!(r, Ok(4)) && once(2, vp, 0), "R02 Read::read_to_end forwards") }
            12 => { let mut v = String::new(); let vp = &mut v as *mut _ as usize; let r = u.read_to_string(&mut v); kani::assert(matches!(r, Ok(5)) && once(3, vp, 0), "R02 Read::read_to_string forwards") }
            _ => { let bufs = [IoSlice::new(&arr[..n])]; let bp = bufs.as_ptr() as usize; let r = u.write_vectored(&bufs); kani::assert(matches!(r, Ok(7)) && once(7, bp, 1), "R02 Write::write_vectored forwards") }
        }
        core::mem::forget(u);
    }
}
