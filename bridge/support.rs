fn any<T: kani::Arbitrary>() -> T { kani::any() }
macro_rules! link { ($($f:expr),* $(,)?) => {{ $( core::hint::black_box($f as *const ()); )* link_owners(); }}; }
macro_rules! reach { ($($v:ident),* $(,)?) => {{ $( <crate::reach::$v as Reach>::reach(); )* link_owners(); }}; }

pub struct Ghost { pub calls: usize, pub pre: u8, pub post: u16, pub id: [usize; 3], pub key: usize, pub ok: bool }
pub static mut G: Ghost = Ghost { calls: 0, pre: 0, post: 0, id: [0; 3], key: 0, ok: false };
pub static mut C_DROPS: usize = 0;
pub static mut C_LAST: usize = 0;

// ---- contract of the exception path ---------------------------------------------------------------
pub static mut ERRORS: usize = 0;
pub static mut ERROR_AT: usize = 0;
/// cxxbridge1$error copies the message into memory C++ owns.
#[export_name = "cxxbridge1$error"]
unsafe extern "C" fn c_error(ptr: *const u8, len: usize) -> core::ptr::NonNull<u8> {
    unsafe {
        ERRORS += 1;
        kani::assert(len == 3 && *ptr == b'a' && *ptr.add(1) == b'b' && *ptr.add(2) == 0, "R08 the message is the error's text");
        ERROR_AT = ptr as usize;
        core::ptr::NonNull::new_unchecked(ptr as *mut u8)
    }
}
fn failure() -> cxx::private::Result {
    let b: Box<str> = Box::from("");
    unsafe { core::mem::transmute::<[usize; 2], _>([Box::into_raw(b) as *mut u8 as usize, 0]) }
}
fn success() -> cxx::private::Result {
    unsafe { core::mem::transmute::<[usize; 2], _>([0, any()]) }
}

// ---- identity: what must be the same on both sides ------------------------------------------------
pub trait Id { fn id(&self) -> [usize; 3]; }
macro_rules! id_prim { ($($t:ty)*) => { $( impl Id for $t { fn id(&self) -> [usize; 3] { [*self as usize, 0, 0] } } )* } }
id_prim!(bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Id for f32 { fn id(&self) -> [usize; 3] { [self.to_bits() as usize, 0, 0] } }
impl Id for f64 { fn id(&self) -> [usize; 3] { [self.to_bits() as usize, 0, 0] } }
impl Id for String { fn id(&self) -> [usize; 3] { [self.as_ptr() as usize, self.len(), self.capacity()] } }
impl<T> Id for Vec<T> { fn id(&self) -> [usize; 3] { [self.as_ptr() as usize, self.len(), self.capacity()] } }
impl<T> Id for &T { fn id(&self) -> [usize; 3] { [*self as *const T as usize, 0, 0] } }
impl<T> Id for &mut T { fn id(&self) -> [usize; 3] { [&**self as *const T as usize, 0, 0] } }
impl Id for &str { fn id(&self) -> [usize; 3] { [self.as_ptr() as usize, self.len(), 0] } }
impl<T> Id for &[T] { fn id(&self) -> [usize; 3] { [self.as_ptr() as usize, self.len(), 0] } }
impl<T> Id for &mut [T] { fn id(&self) -> [usize; 3] { [self.as_ptr() as usize, self.len(), 0] } }
impl<T> Id for Pin<&mut T> { fn id(&self) -> [usize; 3] { [&**self as *const T as usize, 0, 0] } }
impl<T> Id for Box<T> { fn id(&self) -> [usize; 3] { [&**self as *const T as usize, 0, 0] } }
impl<T> Id for *const T { fn id(&self) -> [usize; 3] { [*self as usize, 0, 0] } }
impl<T> Id for *mut T { fn id(&self) -> [usize; 3] { [*self as usize, 0, 0] } }
fn same(a: [usize; 3], b: [usize; 3]) -> bool { a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }
fn sames(a: [[usize; 3]; 7], b: [[usize; 3]; 7]) -> bool { same(a[0], b[0]) && same(a[1], b[1]) && same(a[2], b[2]) && same(a[3], b[3]) && same(a[4], b[4]) && same(a[5], b[5]) && same(a[6], b[6]) }
/// Ends the one element, not the buffer (its deallocation is R05's subject).
fn eat_vec<T>(mut v: Vec<T>) { drop(v.pop()); kani::assert(v.len() == 0, "one element"); core::mem::forget(v); }
fn words<T>(x: &T) -> [usize; 3] {
    let a: [usize; 2] = unsafe { core::mem::transmute_copy(x) };
    [a[0], a[1], 0]
}
impl<T: cxx::memory::SharedPtrTarget> Id for SharedPtr<T> { fn id(&self) -> [usize; 3] { words(self) } }
impl<T: cxx::memory::WeakPtrTarget> Id for WeakPtr<T> { fn id(&self) -> [usize; 3] { words(self) } }
impl<T: cxx::memory::UniquePtrTarget> Id for UniquePtr<T> {
    fn id(&self) -> [usize; 3] { [unsafe { core::mem::transmute_copy::<Self, usize>(self) }, 0, 0] }
}
impl Id for S { fn id(&self) -> [usize; 3] { [self.a as usize, &*self.b as *const R as usize, self.c.as_ptr() as usize ^ self.c.len()] } }
impl Id for Pod { fn id(&self) -> [usize; 3] { [self.a as usize, self.b as usize, 0] } }
impl Id for Small { fn id(&self) -> [usize; 3] { [self.e.repr as usize, self.f.repr as usize, 0] } }
impl Id for E { fn id(&self) -> [usize; 3] { [self.repr as usize, 0, 0] } }
impl Id for E64 { fn id(&self) -> [usize; 3] { [self.repr as usize, 0, 0] } }
impl Id for [u8; 3] { fn id(&self) -> [usize; 3] { [self[0] as usize, self[1] as usize, self[2] as usize] } }
impl Id for [Pod; 2] { fn id(&self) -> [usize; 3] { [self[0].a as usize, self[1].a as usize, self[0].b as usize * 65536 + self[1].b as usize] } }
impl Id for TrivialAlias { fn id(&self) -> [usize; 3] { [self.a as usize, self.b as usize, 0] } }

// ---- arbitrary values ------------------------------------------------------------------------------
impl kani::Arbitrary for Pod { fn any() -> Self { Pod { a: kani::any(), b: kani::any() } } }
impl kani::Arbitrary for E { fn any() -> Self { E { repr: kani::any() } } }
impl kani::Arbitrary for E64 { fn any() -> Self { E64 { repr: kani::any() } } }
impl kani::Arbitrary for Small { fn any() -> Self { Small { e: kani::any(), f: kani::any() } } }
impl kani::Arbitrary for TrivialAlias { fn any() -> Self { TrivialAlias { a: kani::any(), b: kani::any() } } }
fn any_r() -> R { R { c: any() } }
fn any_s() -> S { S { a: any(), b: Box::new(any_r()), c: any_string() } }
fn some_s() -> S { S { a: any(), b: Box::new(any_r()), c: some_string() } }
fn any_m() -> M { M { n: any(), p: any() } }
fn leak<T>(x: T) -> &'static T { Box::leak(Box::new(x)) }
fn leak_mut<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
fn any_addr() -> usize { any() }
/// An object whose content Rust never sees, at any address.
fn any_addr_ref<T>() -> &'static T {
    kani::assert(core::mem::size_of::<T>() == 0, "opaque");
    let a: usize = any();
    kani::assume(a != 0 && a % core::mem::align_of::<T>() == 0);
    unsafe { &*(a as *const T) }
}
fn any_addr_pin<T>() -> Pin<&'static mut T> {
    kani::assert(core::mem::size_of::<T>() == 0, "opaque");
    let a: usize = any();
    kani::assume(a != 0 && a % core::mem::align_of::<T>() == 0);
    unsafe { Pin::new_unchecked(&mut *(a as *mut T)) }
}
fn fresh<T>(len: usize) -> *mut T {
    let bytes = len * core::mem::size_of::<T>();
    kani::assume(bytes > 0 && bytes <= 1 << 40);
    unsafe { alloc::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(bytes, core::mem::align_of::<T>())) as *mut T }
}
fn any_slice_mut<T>() -> &'static mut [T] {
    let n: usize = any();
    kani::assume(n <= 1 << 30);
    let p: *mut T = if n == 0 { core::ptr::NonNull::dangling().as_ptr() } else { fresh::<T>(n) };
    unsafe { core::slice::from_raw_parts_mut(p, n) }
}
fn any_slice<T>() -> &'static [T] { any_slice_mut::<T>() }
fn any_str() -> &'static str { unsafe { core::str::from_utf8_unchecked(any_slice::<u8>()) } }
fn any_vec<T: Copy>() -> Vec<T> {
    let (n, cap): (usize, usize) = (any(), any());
    kani::assume(cap <= 1 << 30 && n <= cap);
    if cap == 0 { return Vec::new(); }
    unsafe { Vec::from_raw_parts(fresh::<T>(cap), n, cap) }
}
fn any_string() -> String { unsafe { String::from_utf8_unchecked(any_vec::<u8>()) } }
/// A string whose buffer has a fixed size (for contracts about several owners at once).
fn some_string() -> String { let mut v = Vec::with_capacity(3); v.push(any::<u8>() & 0x7f); unsafe { String::from_utf8_unchecked(v) } }
fn any_unique<T: cxx::memory::UniquePtrTarget>() -> UniquePtr<T> {
    let a: usize = any();
    unsafe { core::mem::transmute_copy::<usize, UniquePtr<T>>(&a) }
}
/// A C++ object of two words that moves by bit copy.
fn any_words<T>() -> T {
    kani::assert(core::mem::size_of::<T>() == 16, "two words");
    let a: [usize; 2] = any();
    unsafe { core::mem::transmute_copy(&a) }
}

// ---- contracts of the owners in C++: one word for unique_ptr, two for shared/weak -------------------
macro_rules! unique_contract {
    ($($m:ident $t:literal)*) => { $(
        mod $m {
            use super::*;
            #[export_name = concat!("cxxbridge1$unique_ptr$", $t, "$null")]
            pub unsafe extern "C" fn null(this: *mut MaybeUninit<*mut core::ffi::c_void>) { unsafe { this.write(MaybeUninit::new(core::ptr::null_mut())) } }
            #[export_name = concat!("cxxbridge1$unique_ptr$", $t, "$raw")]
            pub unsafe extern "C" fn raw(this: *mut MaybeUninit<*mut core::ffi::c_void>, raw: *mut core::ffi::c_void) { unsafe { this.write(MaybeUninit::new(raw)) } }
            #[export_name = concat!("cxxbridge1$unique_ptr$", $t, "$get")]
            pub unsafe extern "C" fn get(this: *const MaybeUninit<*mut core::ffi::c_void>) -> *const core::ffi::c_void { unsafe { (*this).assume_init() } }
            #[export_name = concat!("cxxbridge1$unique_ptr$", $t, "$release")]
            pub unsafe extern "C" fn release(this: *mut MaybeUninit<*mut core::ffi::c_void>) -> *mut core::ffi::c_void { unsafe {
                let p = (*this).assume_init();
                this.write(MaybeUninit::new(core::ptr::null_mut()));
                p
            } }
            #[export_name = concat!("cxxbridge1$unique_ptr$", $t, "$drop")]
            pub unsafe extern "C" fn drop(this: *mut MaybeUninit<*mut core::ffi::c_void>) { unsafe { C_DROPS += 1; C_LAST = (*this).assume_init() as usize; } }
            pub fn link() { $crate::contracts::keep(&[null as *const (), raw as *const (), get as *const (), release as *const (), drop as *const ()]) }
        }
    )* }
}
pub(crate) fn keep(p: &[*const ()]) { core::hint::black_box(p); }
unique_contract!(u_c "n$C" u_alias "n$OpaqueAlias");
macro_rules! unique_contract_rt {
    ($($m:ident $t:literal $ty:ty;)*) => { $(
        mod $m {
            use super::*;
            #[export_name = concat!("cxxbridge1$unique_ptr$std$", $t, "$null")]
            pub unsafe extern "C" fn null(this: *mut MaybeUninit<*mut core::ffi::c_void>) { unsafe { this.write(MaybeUninit::new(core::ptr::null_mut())) } }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$", $t, "$raw")]
            pub unsafe extern "C" fn raw(this: *mut MaybeUninit<*mut core::ffi::c_void>, raw: *mut $ty) { unsafe { this.write(MaybeUninit::new(raw.cast())) } }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$", $t, "$get")]
            pub unsafe extern "C" fn get(this: *const MaybeUninit<*mut core::ffi::c_void>) -> *const $ty { unsafe { (*this).assume_init().cast() } }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$", $t, "$release")]
            pub unsafe extern "C" fn release(this: *mut MaybeUninit<*mut core::ffi::c_void>) -> *mut $ty { unsafe {
                let p = (*this).assume_init();
                this.write(MaybeUninit::new(core::ptr::null_mut()));
                p.cast()
            } }
            #[export_name = concat!("cxxbridge1$unique_ptr$std$", $t, "$drop")]
            pub unsafe extern "C" fn drop(this: *mut MaybeUninit<*mut core::ffi::c_void>) { unsafe { C_DROPS += 1; C_LAST = (*this).assume_init() as usize; } }
            pub fn link() { $crate::contracts::keep(&[null as *const (), raw as *const (), get as *const (), release as *const (), drop as *const ()]) }
        }
    )* }
}
unique_contract_rt!(u_string "string" CxxString; u_vec "vector$u8" CxxVector<u8>;);
#[export_name = "cxxbridge1$shared_ptr$n$C$drop"]
unsafe extern "C" fn c_shared_drop(this: *mut core::ffi::c_void) { unsafe { C_DROPS += 1; C_LAST = *this.cast::<usize>(); } }
#[export_name = "cxxbridge1$std$shared_ptr$u8$drop"]
unsafe extern "C" fn c_shared_u8_drop(this: *mut core::ffi::c_void) { unsafe { C_DROPS += 1; C_LAST = *this.cast::<usize>(); } }
#[export_name = "cxxbridge1$weak_ptr$n$C$drop"]
unsafe extern "C" fn c_weak_drop(this: *mut core::ffi::c_void) { unsafe { C_DROPS += 1; C_LAST = *this.cast::<usize>(); } }
fn link_owners() {
    u_c::link(); u_alias::link(); u_string::link(); u_vec::link();
    keep(&[c_shared_drop as *const (), c_shared_u8_drop as *const (), c_weak_drop as *const ()]);
}
