//! Contracts of SharedPtr<T> and WeakPtr<T> (property R03).
//!
//! C++ side contract: a std::shared_ptr / std::weak_ptr is two words living at
//! the address it was constructed at; every operation is called on such an
//! address. Ghost: strong and weak counts of one control block.
#![allow(dead_code, missing_docs, static_mut_refs, improper_ctypes_definitions)]
use super::*;
use crate::verif_ghost::{link_contracts, never, Rec, Sink};

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub(crate) struct Obj(pub u32);
impl Display for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.0 == 7 { "seven" } else { "other" })
    }
}
unsafe impl ExternType for Obj {
    type Id = ();
    type Kind = Trivial;
}
static mut STRONG: isize = 0;
static mut WEAK: isize = 0;
static mut CELL: MaybeUninit<Obj> = MaybeUninit::uninit();
static mut OPS: usize = 0;
fn obj() -> *mut c_void {
    unsafe { (&raw mut CELL).cast() }
}
/// Two words of a C++ smart pointer: stored pointer, control-block tag.
#[derive(Copy, Clone)]
#[repr(C)]
struct Two(*mut c_void, usize);
const S: usize = 0xA5A5;
const W: usize = 0x5A5A;
unsafe fn two(p: *const c_void) -> Two {
    unsafe { *(p as *const Two) }
}
unsafe fn put(p: *mut c_void, t: Two) {
    unsafe { (p as *mut Two).write(t) }
}
unsafe impl SharedPtrTarget for Obj {
    fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Obj")
    }
    unsafe fn __null(new: *mut c_void) {
        unsafe { OPS += 1; put(new, Two(core::ptr::null_mut(), S)) }
    }
    unsafe fn __new(value: Self, new: *mut c_void) {
        unsafe {
            OPS += 1;
            (obj() as *mut Obj).write(value);
            STRONG += 1;
            put(new, Two(obj(), S))
        }
    }
    unsafe fn __clone(this: *const c_void, new: *mut c_void) {
        unsafe {
            OPS += 1;
            let t = two(this);
            kani::assert(t.1 == S, "R03 clone is called on a live shared_ptr");
            if !t.0.is_null() { STRONG += 1 }
            put(new, t)
        }
    }
    unsafe fn __get(this: *const c_void) -> *const Self {
        unsafe {
            let t = two(this);
            kani::assert(t.1 == S, "R03 get is called on a live shared_ptr");
            t.0 as *const Obj
        }
    }
    unsafe fn __drop(this: *mut c_void) {
        unsafe {
            OPS += 1;
            let t = two(this);
            kani::assert(t.1 == S, "R03 drop is called on a live shared_ptr");
            if !t.0.is_null() { STRONG -= 1 }
            put(this, Two(t.0, 0))
        }
    }
}
unsafe impl WeakPtrTarget for Obj {
    fn __typename(f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Obj")
    }
    unsafe fn __null(new: *mut c_void) {
        unsafe { OPS += 1; put(new, Two(core::ptr::null_mut(), W)) }
    }
    unsafe fn __clone(this: *const c_void, new: *mut c_void) {
        unsafe {
            OPS += 1;
            let t = two(this);
            kani::assert(t.1 == W, "R03 clone is called on a live weak_ptr");
            if !t.0.is_null() { WEAK += 1 }
            put(new, t)
        }
    }
    unsafe fn __downgrade(shared: *const c_void, new: *mut c_void) {
        unsafe {
            OPS += 1;
            let t = two(shared);
            kani::assert(t.1 == S, "R03 downgrade reads a live shared_ptr");
            if !t.0.is_null() { WEAK += 1 }
            put(new, Two(t.0, W))
        }
    }
    unsafe fn __upgrade(weak: *const c_void, shared: *mut c_void) {
        unsafe {
            OPS += 1;
            let t = two(weak);
            kani::assert(t.1 == W, "R03 upgrade reads a live weak_ptr");
            if t.0.is_null() || STRONG == 0 {
                put(shared, Two(core::ptr::null_mut(), S))
            } else {
                STRONG += 1;
                put(shared, Two(t.0, S))
            }
        }
    }
    unsafe fn __drop(this: *mut c_void) {
        unsafe {
            OPS += 1;
            let t = two(this);
            kani::assert(t.1 == W, "R03 drop is called on a live weak_ptr");
            if !t.0.is_null() { WEAK -= 1 }
            put(this, Two(t.0, 0))
        }
    }
}
fn counts(s: isize, w: isize) -> bool {
    unsafe { STRONG == s && WEAK == w }
}
fn any_shared(v: u32) -> (SharedPtr<Obj>, bool) {
    if kani::any() { (SharedPtr::null(), true) } else { (SharedPtr::new(Obj(v)), false) }
}

#[kani::proof]
fn r03_observers_and_drop() {
    let v: u32 = kani::any();
    let (p, null) = any_shared(v);
    let n = if null { 0 } else { 1 };
    kani::assert(counts(n, 0), "R03 construction holds one strong reference");
    kani::assert(p.is_null() == null, "R03 is_null iff no target");
    match p.as_ref() {
        None => kani::assert(null, "R03 as_ref None only for null"),
        Some(r) => kani::assert(!null && r as *const Obj as usize == obj() as usize && r.0 == v, "R03 as_ref is the shared object"),
    }
    if !null {
        kani::assert(&*p as *const Obj as usize == obj() as usize, "R03 deref is the shared object");
    }
    kani::assert(counts(n, 0), "R03 observing does not change the counts");
    drop(p);
    kani::assert(counts(0, 0), "R03 drop releases exactly one strong reference");
}
#[kani::proof]
#[kani::should_panic]
fn r03_deref_null_panics() {
    let p = SharedPtr::<Obj>::null();
    let _r = &*p;
    never();
}
#[kani::proof]
fn r03_clone() {
    let (p, null) = any_shared(kani::any());
    let n = if null { 0 } else { 1 };
    let q = p.clone();
    kani::assert(counts(2 * n, 0), "R03 clone adds exactly one strong reference");
    kani::assert(q.is_null() == null, "R03 clone of null is null");
    kani::assert(q.as_ref().map(|r| r as *const Obj) == p.as_ref().map(|r| r as *const Obj), "R03 clone shares the target");
    if kani::any() { drop(p); kani::assert(counts(n, 0), "R03 dropping one leaves the other alive"); kani::assert(q.is_null() == null, "R03 clone outlives the original"); drop(q) } else { drop(q); kani::assert(counts(n, 0), "R03 dropping the clone leaves the original"); drop(p) }
    kani::assert(counts(0, 0), "R03 all references released");
}
#[kani::proof]
fn r03_moved_pointer_still_valid() {
    let (p, null) = any_shared(kani::any());
    let boxed = alloc::boxed::Box::new(p);
    let moved = *boxed;
    kani::assert(moved.is_null() == null, "R03 a moved SharedPtr keeps its target");
    drop(moved);
    kani::assert(counts(0, 0), "R03 a moved SharedPtr is dropped once");
}
#[kani::proof]
fn r03_weak() {
    let (p, null) = any_shared(kani::any());
    let n = if null { 0 } else { 1 };
    let w = p.downgrade();
    kani::assert(counts(n, n), "R03 downgrade adds one weak reference and no strong one");
    let w2 = w.clone();
    kani::assert(counts(n, 2 * n), "R03 weak clone adds one weak reference");
    drop(w);
    kani::assert(counts(n, n), "R03 weak drop releases one weak reference");
    let u = w2.upgrade();
    kani::assert(u.is_null() == null, "R03 upgrade while alive is non-null exactly if the original was");
    kani::assert(u.as_ref().map(|r| r as *const Obj) == p.as_ref().map(|r| r as *const Obj), "R03 upgrade shares the target");
    kani::assert(counts(2 * n, n), "R03 upgrade adds one strong reference");
    drop(p);
    drop(u);
    kani::assert(counts(0, n), "R03 strong references released, weak remains");
    let dead = w2.upgrade();
    kani::assert(dead.is_null(), "R03 upgrade after the last strong reference is null");
    drop(dead);
    kani::assert(counts(0, n), "R03 a null upgrade holds nothing");
    drop(w2);
    kani::assert(counts(0, 0), "R03 all references released");
}
#[kani::proof]
fn r03_weak_null() {
    let w = WeakPtr::<Obj>::null();
    kani::assert(w.upgrade().is_null(), "R03 WeakPtr::null upgrades to null");
    let w2 = w.clone();
    kani::assert(w2.upgrade().is_null(), "R03 clone of WeakPtr::null upgrades to null");
    drop(w);
    drop(w2);
    kani::assert(counts(0, 0), "R03 null weak pointers hold nothing");
}
#[kani::proof]
#[kani::unwind(20)]
fn r03_compare_hash() {
    let (a, b): (u32, u32) = (kani::any(), kani::any());
    let (mut x, mut y) = (Obj(a), Obj(b));
    let (n1, n2): (bool, bool) = (kani::any(), kani::any());
    // Two pointers with independent targets: the pointer word is what get() returns.
    let t1 = Two(if n1 { core::ptr::null_mut() } else { (&mut x as *mut Obj).cast() }, S);
    let t2 = Two(if n2 { core::ptr::null_mut() } else { (&mut y as *mut Obj).cast() }, S);
    let p1 = unsafe { &*(&t1 as *const Two as *const SharedPtr<Obj>) };
    let p2 = unsafe { &*(&t2 as *const Two as *const SharedPtr<Obj>) };
    let o1 = if n1 { None } else { Some(a) };
    let o2 = if n2 { None } else { Some(b) };
    kani::assert((p1 == p2) == (o1 == o2), "R03 == compares targets, null only equals null");
    kani::assert(p1.cmp(p2) == o1.cmp(&o2), "R03 cmp orders by target, null first");
    kani::assert(p1.partial_cmp(p2) == o1.partial_cmp(&o2), "R03 partial_cmp orders by target, null first");
    let (mut h1, mut h2) = (Rec::new(), Rec::new());
    p1.hash(&mut h1);
    o1.map(Obj).as_ref().hash(&mut h2);
    kani::assert(h1.same(&h2), "R03 hash is that of the optional target");
}
#[kani::proof]
#[kani::unwind(12)]
fn r03_fmt() {
    use core::fmt::Write;
    let v: u32 = kani::any();
    let (p, null) = any_shared(v);
    let mut s = Sink::<16>::new();
    write!(s, "{}", p).unwrap();
    let want: &[u8] = if null { b"nullptr" } else if v == 7 { b"seven" } else { b"other" };
    kani::assert(s.bytes() == want, "R03 Display prints nullptr or the target");
}

// The runtime's own targets call the symbol of their own type, on the address
// of this pointer, with the address of the new pointer.
macro_rules! shared_symbols {
    ($m:ident, $ty:ty, $seg:literal, $h:ident) => {
        mod $m {
            use super::*;
            static mut LOG: [(u8, usize, usize); 8] = [(0, 0, 0); 8];
            static mut N: usize = 0;
            fn log(op: u8, a: usize, b: usize) {
                unsafe {
                    kani::assert(N < 8, "R03 no unexpected extra C++ call");
                    LOG[N] = (op, a, b);
                    N += 1;
                }
            }
            #[export_name = concat!("cxxbridge1$std$shared_ptr$", $seg, "$null")]
            unsafe extern "C" fn s_null(new: *mut c_void) {
                log(1, 0, 0);
                unsafe { put(new, Two(core::ptr::null_mut(), S)) }
            }
            #[export_name = concat!("cxxbridge1$std$shared_ptr$", $seg, "$clone")]
            unsafe extern "C" fn s_clone(this: *const c_void, new: *mut c_void) {
                log(2, this as usize, 0);
                unsafe { put(new, two(this)) }
            }
            #[export_name = concat!("cxxbridge1$std$shared_ptr$", $seg, "$get")]
            unsafe extern "C" fn s_get(this: *const c_void) -> *const c_void {
                unsafe { two(this).0 }
            }
            #[export_name = concat!("cxxbridge1$std$shared_ptr$", $seg, "$drop")]
            unsafe extern "C" fn s_drop(this: *mut c_void) {
                log(3, unsafe { two(this).0 as usize }, unsafe { two(this).1 });
            }
            #[export_name = concat!("cxxbridge1$std$weak_ptr$", $seg, "$null")]
            unsafe extern "C" fn w_null(new: *mut c_void) {
                log(4, 0, 0);
                unsafe { put(new, Two(core::ptr::null_mut(), W)) }
            }
            #[export_name = concat!("cxxbridge1$std$weak_ptr$", $seg, "$clone")]
            unsafe extern "C" fn w_clone(this: *const c_void, new: *mut c_void) {
                log(5, this as usize, 0);
                unsafe { put(new, two(this)) }
            }
            #[export_name = concat!("cxxbridge1$std$weak_ptr$", $seg, "$downgrade")]
            unsafe extern "C" fn w_downgrade(shared: *const c_void, new: *mut c_void) {
                log(6, shared as usize, 0);
                unsafe { put(new, Two(two(shared).0, W)) }
            }
            #[export_name = concat!("cxxbridge1$std$weak_ptr$", $seg, "$upgrade")]
            unsafe extern "C" fn w_upgrade(weak: *const c_void, shared: *mut c_void) {
                log(7, weak as usize, 0);
                unsafe { put(shared, Two(two(weak).0, S)) }
            }
            #[export_name = concat!("cxxbridge1$std$weak_ptr$", $seg, "$drop")]
            unsafe extern "C" fn w_drop(this: *mut c_void) {
                log(8, unsafe { two(this).0 as usize }, unsafe { two(this).1 });
            }
            fn is(i: usize, op: u8, a: usize) -> bool {
                unsafe { N == i + 1 && LOG[i].0 == op && LOG[i].1 == a }
            }
            #[kani::proof]
            fn $h() {
                link_contracts!(s_null, s_clone, s_get, s_drop, w_null, w_clone, w_downgrade, w_upgrade, w_drop);
                let t = Two(kani::any::<usize>() as *mut c_void, S);
                let p = unsafe { &*(&t as *const Two as *const SharedPtr<$ty>) };
                let at = &t as *const Two as usize;
                kani::assert(p.is_null() == t.0.is_null(), "R03 is_null reads this pointer");
                let q = p.clone();
                kani::assert(is(0, 2, at), "R03 clone copies this pointer");
                kani::assert(q.is_null() == t.0.is_null(), "R03 clone result is the C++ copy");
                let w = p.downgrade();
                kani::assert(is(1, 6, at), "R03 downgrade reads this pointer");
                let w2 = w.clone();
                kani::assert(is(2, 5, &w as *const _ as usize), "R03 weak clone copies this pointer");
                let u = w2.upgrade();
                kani::assert(is(3, 7, &w2 as *const _ as usize), "R03 upgrade reads this pointer");
                kani::assert(u.is_null() == t.0.is_null(), "R03 upgrade result is the C++ result");
                drop(u);
                kani::assert(is(4, 3, t.0 as usize) && unsafe { LOG[4].2 == S }, "R03 drop destroys the shared_ptr once");
                drop(w);
                kani::assert(is(5, 8, t.0 as usize) && unsafe { LOG[5].2 == W }, "R03 drop destroys the weak_ptr once");
                core::mem::forget((q, w2));
                let n = SharedPtr::<$ty>::null();
                kani::assert(is(6, 1, 0) && n.is_null(), "R03 null constructs an empty shared_ptr");
                let wn = WeakPtr::<$ty>::null();
                kani::assert(is(7, 4, 0), "R03 WeakPtr::null constructs an empty weak_ptr");
                core::mem::forget((n, wn));
            }
        }
    };
}
shared_symbols!(sym_u8, u8, "u8", r03_symbols_u8);
shared_symbols!(sym_bool, bool, "bool", r03_symbols_bool);
shared_symbols!(sym_i64, i64, "i64", r03_symbols_i64);
shared_symbols!(sym_isize, isize, "isize", r03_symbols_isize);
shared_symbols!(sym_string, CxxString, "string", r03_symbols_string);

macro_rules! shared_new {
    ($f:ident, $h:ident, $ty:ty, $seg:literal, $bits:ty) => {
        static mut $f: ([u64; 2], usize) = ([0; 2], 0);
        mod $h {
            use super::*;
            #[export_name = concat!("cxxbridge1$std$shared_ptr$", $seg, "$uninit")]
            unsafe extern "C" fn uninit(new: *mut c_void) -> *mut c_void {
                unsafe {
                    $f.1 += 1;
                    put(new, Two((&raw mut $f).cast(), S));
                    (&raw mut $f).cast()
                }
            }
            #[kani::proof]
            fn $h() {
                link_contracts!(uninit);
                let v: $ty = kani::any();
                let p = SharedPtr::<$ty>::new(v);
                let b = |x: $ty| unsafe { core::mem::transmute::<$ty, $bits>(x) };
                unsafe {
                    kani::assert($f.1 == 1, "R03 new allocates once");
                    kani::assert(b(*((&raw const $f) as *const $ty)) == b(v), "R03 new stores the value in the allocation");
                }
                core::mem::forget(p);
            }
        }
    };
}
shared_new!(NEW_U32, r03_new_u32, u32, "u32", u32);
shared_new!(NEW_F64, r03_new_f64, f64, "f64", u64);
shared_new!(NEW_U16, r03_new_u16, u16, "u16", u16);
