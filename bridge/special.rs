
// =================================================================================================
// R07: receivers, several arguments at once, Result without value, renaming, function pointers
// =================================================================================================
#[export_name = "n$cxxbridge1$ct_unit"]
unsafe extern "C" fn c_ct_unit(k: *mut core::ffi::c_void) -> cxx::private::Result {
    unsafe { G.calls += 1; G.key = k as usize; G.ok = any(); if G.ok { success() } else { failure() } }
}
#[kani::proof]
fn r07_try_unit() {
    link!(c_ct_unit);
    let mut k = Key(1);
    let ka = &k as *const Key as usize;
    let r = ffi::ct_unit(&mut k);
    unsafe { kani::assert(G.calls == 1 && G.key == ka && r.is_ok() == G.ok, "R07 a fallible function without value reports C++'s outcome") }
}
pub static mut IDS: [[usize; 3]; 7] = [[0; 3]; 7];
#[export_name = "n$cxxbridge1$ct_args"]
unsafe extern "C" fn c_ct_args(a: *const cxx::private::RustString, b: *mut C, c: *mut SharedPtr<C>, d: cxx::private::RustSlice, e: *mut core::ffi::c_void, ret: *mut S) -> cxx::private::Result {
    unsafe {
        G.calls += 1;
        let a = core::ptr::read(a.cast::<String>());
        let b = UniquePtr::<C>::from_raw(b);
        let c = core::ptr::read(c);
        let e = Box::from_raw(e.cast::<R>());
        IDS = [a.id(), b.id(), c.id(), d.as_mut_slice::<u16>().id(), e.id(), [0; 3], [0; 3]];
        drop((a, b, c, e));
        G.ok = any();
        if !G.ok { return failure(); }
        let s = some_s();
        G.id = s.id();
        core::ptr::write(ret, s);
        success()
    }
}
#[kani::proof]
fn r07_try_args() {
    link!(c_ct_args);
    let (a, b, c, d, e) = (some_string(), any_unique::<C>(), any_words::<SharedPtr<C>>(), any_slice_mut::<u16>(), Box::new(any_r()));
    let ids = [a.id(), b.id(), c.id(), d.id(), e.id(), [0; 3], [0; 3]];
    let r = ffi::ct_args(a, b, c, d, e);
    unsafe {
        kani::assert(G.calls == 1 && sames(IDS, ids), "R07 every argument arrives in its position, also next to an out-parameter");
        kani::assert(R_DROPS == 1 && C_DROPS == 2, "R07 arguments are owned by C++ whether or not it fails");
        kani::assert(r.is_ok() == G.ok, "R07 the outcome is C++'s");
        if let Ok(s) = r {
            kani::assert(s.id() == G.id, "R07 the success value is C++'s");
            drop(s);
            kani::assert(R_DROPS == 2, "R07 the success value is owned once");
        }
    }
}
#[export_name = "n$cxxbridge1$c_combo"]
unsafe extern "C" fn c_c_combo(a: *mut Pod, b: *const cxx::private::RustString, c: bool, d: *mut Pod, e: *const cxx::private::RustVec<R>, f: cxx::private::RustStr, g: E, ret: *mut Pod) {
    unsafe {
        G.calls += 1;
        let b = core::ptr::read(b.cast::<String>());
        let e = core::ptr::read(e.cast::<Vec<R>>());
        IDS = [(*a).id(), b.id(), c.id(), (*d).id(), e.id(), f.as_str().id(), g.id()];
        drop(b); eat_vec(e);
        let v: Pod = any();
        G.id = v.id();
        core::ptr::write(ret, v);
    }
}
#[kani::proof]
fn r07_combo() {
    link!(c_c_combo);
    let (a, b, c, d, e, f, g): (Pod, String, bool, Pod, Vec<R>, &str, E) = (any(), some_string(), any(), any(), Vec::from([any_r()]), any_str(), any());
    let ids = [a.id(), b.id(), c.id(), d.id(), e.id(), f.id(), g.id()];
    let r = ffi::c_combo(a, b, c, d, e, f, g);
    unsafe {
        kani::assert(G.calls == 1 && sames(IDS, ids), "R07 every argument arrives in its position");
        kani::assert(r.id() == G.id && R_DROPS == 1, "R07 value and ownership through out-parameter and arguments");
    }
}
#[export_name = "n$cxxbridge1$C$get"]
unsafe extern "C" fn c_get(this: &C, pre: u8, x: *const cxx::private::RustString) -> u32 {
    unsafe {
        G.calls += 1; G.key = this as *const C as usize; G.pre = pre;
        let x = core::ptr::read(x.cast::<String>());
        IDS[0] = x.id();
        let r: u32 = any();
        G.id = r.id();
        r
    }
}
#[kani::proof]
fn r07_method_ref() {
    link!(c_get);
    let c = any_addr_ref::<C>();
    let x = any_string();
    let (id, pre): (_, u8) = (x.id(), any());
    let r = c.get(pre, x);
    unsafe { kani::assert(G.calls == 1 && G.key == c as *const C as usize && G.pre == pre && IDS[0] == id && r.id() == G.id, "R07 method: receiver, arguments and result") }
}
#[export_name = "n$cxxbridge1$C$set"]
unsafe extern "C" fn c_set(this: Pin<&mut C>, pre: u8, x: *mut core::ffi::c_void, ret: *mut cxx::private::RustString) -> cxx::private::Result {
    unsafe {
        G.calls += 1; G.key = &*this as *const C as usize; G.pre = pre;
        let x = Box::from_raw(x.cast::<R>());
        IDS[0] = x.id();
        drop(x);
        G.ok = any();
        if !G.ok { return failure(); }
        let r = any_string();
        G.id = r.id();
        core::ptr::write(ret.cast::<String>(), r);
        success()
    }
}
#[kani::proof]
fn r07_method_pin() {
    link!(c_set);
    let mut c = any_addr_pin::<C>();
    let at = &*c as *const C as usize;
    let x = Box::new(any_r());
    let (id, pre): (_, u8) = (x.id(), any());
    let r = c.as_mut().set(pre, x);
    unsafe {
        kani::assert(G.calls == 1 && G.key == at && G.pre == pre && IDS[0] == id && R_DROPS == 1, "R07 mutable method: receiver and arguments");
        kani::assert(match &r { Ok(s) => G.ok && s.id() == G.id, Err(_) => !G.ok }, "R07 mutable method: outcome");
    }
}
#[export_name = "n$cxxbridge1$L$life"]
unsafe extern "C" fn c_life(this: &L, x: cxx::private::RustStr) -> *const core::ffi::c_void {
    unsafe { G.calls += 1; G.key = this as *const L as usize; IDS[0] = x.as_str().id(); let r = leak(any_r()); G.id = r.id(); (r as *const R).cast() }
}
#[kani::proof]
fn r07_method_lifetime() {
    link!(c_life);
    let l = any_addr_ref::<L<'static>>();
    let x = any_str();
    let r = l.life(x);
    unsafe { kani::assert(G.calls == 1 && G.key == l as *const L as usize && IDS[0] == x.id() && r.id() == G.id, "R07 method of a type with lifetime") }
}
#[export_name = "n$cxxbridge1$M$get"]
unsafe extern "C" fn c_mget(this: &M, pre: u8) -> u32 {
    unsafe { G.calls += 1; G.key = this as *const M as usize; G.pre = pre; let r: u32 = any(); G.id = r.id(); r }
}
#[export_name = "n$cxxbridge1$M$set"]
unsafe extern "C" fn c_mset(this: &mut M, pre: u8, x: *mut Pod, ret: *mut Pod) {
    unsafe { G.calls += 1; G.key = this as *const M as usize; G.pre = pre; IDS[0] = (*x).id(); let r: Pod = any(); G.id = r.id(); ret.write(r) }
}
#[export_name = "n$cxxbridge1$TrivialAlias$get"]
unsafe extern "C" fn c_tget(this: &TrivialAlias, pre: u8) -> u32 {
    unsafe { G.calls += 1; G.key = this as *const TrivialAlias as usize; G.pre = pre; let r: u32 = any(); G.id = r.id(); r }
}
#[kani::proof]
fn r07_method_struct() {
    link!(c_mget, c_mset, c_tget);
    let pre: u8 = any();
    unsafe {
        let mut m = any_m();
        let r = m.get(pre);
        kani::assert(G.calls == 1 && G.key == &m as *const M as usize && G.pre == pre && r.id() == G.id, "R07 method of a shared struct");
        let x: Pod = any();
        let r = m.set(pre, x);
        kani::assert(G.calls == 2 && G.key == &m as *const M as usize && IDS[0] == x.id() && r.id() == G.id, "R07 mutable method of a shared struct");
        let t: TrivialAlias = any();
        let r = t.get(pre);
        kani::assert(G.calls == 3 && G.key == &t as *const TrivialAlias as usize && r.id() == G.id, "R07 method of an aliased type");
    }
}
#[export_name = "n$cxxbridge1$renamed_rust"]
unsafe extern "C" fn c_renamed(a: u32) -> u32 { unsafe { G.calls += 1; IDS[0] = a.id(); let r: u32 = any(); G.id = r.id(); r } }
#[export_name = "other$cxxbridge1$other_ns"]
unsafe extern "C" fn c_other_ns(a: u32) -> u32 { unsafe { G.calls += 100; IDS[0] = a.id(); let r: u32 = any(); G.id = r.id(); r } }
#[kani::proof]
fn r07_names() {
    link!(c_renamed, c_other_ns);
    let a: u32 = any();
    unsafe {
        let r = ffi::renamed_rust(a);
        kani::assert(G.calls == 1 && IDS[0] == a.id() && r.id() == G.id, "R07 a renamed function reaches its own C++ function");
        let b: u32 = any();
        let r = ffi::other_ns(b);
        kani::assert(G.calls == 101 && IDS[0] == b.id() && r.id() == G.id, "R07 a function in another namespace reaches its own C++ function");
    }
}
// ---- function pointers: C++ gets a trampoline plus the Rust function's address ---------------------
fn user_f(a: u32, b: String, c: Pod) -> Box<R> {
    unsafe { G.calls += 1; IDS[0] = a.id(); IDS[1] = b.id(); IDS[2] = c.id(); let r = Box::new(any_r()); G.id = r.id(); r }
}
fn user_g(a: &R) -> &R { unsafe { G.calls += 1; IDS[3] = a.id(); a } }
#[export_name = "n$cxxbridge1$c_fn$f$0"]
unsafe extern "C" fn c_tramp_f() {}
#[export_name = "n$cxxbridge1$c_fn$g$0"]
unsafe extern "C" fn c_tramp_g() {}
unsafe extern "C" {
    #[link_name = "n$cxxbridge1$c_fn$f$1"]
    fn e_tramp_f(a: u32, b: *mut cxx::private::RustString, c: *mut Pod, f: *const ()) -> *mut R;
    #[link_name = "n$cxxbridge1$c_fn$g$1"]
    fn e_tramp_g(a: &R, f: *const ()) -> &R;
}
pub static mut FN_PTRS: [usize; 4] = [0; 4];
#[export_name = "n$cxxbridge1$c_fn"]
unsafe extern "C" fn c_c_fn(pre: u8, f: cxx::private::FatFunction, g: cxx::private::FatFunction, post: u16) {
    unsafe { G.calls += 1; G.pre = pre; G.post = post; FN_PTRS = [f.trampoline as usize, f.ptr as usize, g.trampoline as usize, g.ptr as usize]; }
}
#[kani::proof]
fn r07_fn_pointer_pass() {
    link!(c_c_fn, c_tramp_f, c_tramp_g);
    let (pre, post): (u8, u16) = (any(), any());
    let f: fn(u32, String, Pod) -> Box<R> = user_f;
    let g: fn(&R) -> &R = user_g;
    unsafe {
        ffi::c_fn(pre, f, g, post);
        kani::assert(G.calls == 1 && G.pre == pre && G.post == post, "R07 function pointers: neighbours");
        kani::assert(FN_PTRS[1] == f as usize && FN_PTRS[3] == g as usize, "R07 function pointers: the Rust functions' own addresses");
        kani::assert(FN_PTRS[0] == c_tramp_f as *const () as usize && FN_PTRS[2] == c_tramp_g as *const () as usize, "R07 function pointers: each with its own trampoline");
    }
}
#[kani::proof]
fn r08_fn_pointer_call() {
    reach!(V_n_cxxbridge1_c_fn_f_1, V_n_cxxbridge1_c_fn_g_1);
    let f: fn(u32, String, Pod) -> Box<R> = user_f;
    let g: fn(&R) -> &R = user_g;
    unsafe {
        let (a, b, mut c): (u32, String, Pod) = (any(), any_string(), any());
        let ids = [a.id(), b.id(), c.id()];
        let mut b = ManuallyDrop::new(b);
        let r = e_tramp_f(a, (&raw mut *b).cast(), &mut c, f as *const ());
        kani::assert(G.calls == 1 && IDS[0] == ids[0] && IDS[1] == ids[1] && IDS[2] == ids[2], "R08 a callback receives the arguments C++ gave");
        kani::assert(r as usize == G.id[0] && R_DROPS == 0, "R08 a callback's result is handed to C++");
        drop(Box::from_raw(r));
        let x = any_r();
        let y = e_tramp_g(&x, g as *const ());
        kani::assert(G.calls == 2 && IDS[3] == (&x).id() && y.id() == (&x).id(), "R08 a callback passes references through");
    }
}
// ---- C++ helper types instantiated by the bridge ----------------------------------------------------
#[export_name = "cxxbridge1$unique_ptr$n$Pod$uninit"]
unsafe extern "C" fn c_u_uninit(this: *mut MaybeUninit<*mut core::ffi::c_void>) -> *mut core::ffi::c_void { unsafe {
    let p = fresh::<Pod>(1).cast();
    G.calls += 1; G.key = p as usize;
    this.write(MaybeUninit::new(p));
    p
} }
unique_contract!(u_pod "n$Pod");
#[kani::proof]
fn r07_target_unique() {
    link!(c_u_uninit);
    u_pod::link();
    let x: Pod = any();
    unsafe {
        let mut p = UniquePtr::new(x);
        kani::assert(G.calls == 1 && !p.is_null(), "R07 UniquePtr::new allocates once in C++");
        kani::assert(p.as_ref().unwrap() as *const Pod as usize == G.key && p.as_ref().unwrap().id() == x.id(), "R07 UniquePtr::new moves the value into C++'s allocation");
        drop(p);
        kani::assert(C_DROPS == 1 && C_LAST == G.key, "R07 the unique_ptr is destroyed once");
        let n = UniquePtr::<Pod>::null();
        kani::assert(n.is_null(), "R07 null");
        drop(n);
        let raw = any_addr() as *mut Pod;
        kani::assert(UniquePtr::from_raw(raw).into_raw() == raw, "R07 raw and release are inverse");
    }
}
pub static mut OPS: [usize; 10] = [0; 10];
macro_rules! counted { ($($f:ident $name:literal $i:literal ($($a:ident),*) ;)*) => { $(
    #[export_name = $name]
    unsafe extern "C" fn $f($($a: *mut core::ffi::c_void),*) { unsafe { OPS[$i] += 1; let args: &[usize] = &[$($a as usize),*]; G.key = args[0]; G.id[0] = args[args.len() - 1]; let last = args[args.len() - 1] as *mut usize; if $i != 3 && $i != 9 { last.write($i); last.add(1).write($i); } } }
)* } }
counted! {
    sp_null "cxxbridge1$shared_ptr$n$Pod$null" 0 (a);
    sp_clone "cxxbridge1$shared_ptr$n$Pod$clone" 1 (a, b);
    sp_drop "cxxbridge1$shared_ptr$n$Pod$drop" 3 (a);
    wp_null "cxxbridge1$weak_ptr$n$Pod$null" 5 (a);
    wp_clone "cxxbridge1$weak_ptr$n$Pod$clone" 6 (a, b);
    wp_downgrade "cxxbridge1$weak_ptr$n$Pod$downgrade" 7 (a, b);
    wp_upgrade "cxxbridge1$weak_ptr$n$Pod$upgrade" 8 (a, b);
    wp_drop "cxxbridge1$weak_ptr$n$Pod$drop" 9 (a);
}
#[export_name = "cxxbridge1$shared_ptr$n$Pod$get"]
unsafe extern "C" fn sp_get(this: *const core::ffi::c_void) -> *const core::ffi::c_void { unsafe { OPS[4] += 1; G.key as *const core::ffi::c_void } }
#[export_name = "cxxbridge1$shared_ptr$n$Pod$uninit"]
unsafe extern "C" fn sp_uninit(this: *mut core::ffi::c_void) -> *mut core::ffi::c_void { unsafe {
    OPS[2] += 1;
    this.cast::<[usize; 2]>().write([2, 2]);
    let p = fresh::<Pod>(1).cast();
    G.key = p as usize;
    p
} }
fn tag<T>(x: &T) -> usize { words(x)[0] }
#[kani::proof]
fn r07_target_shared() {
    link!(sp_null, sp_clone, sp_drop, sp_get, sp_uninit, wp_null, wp_clone, wp_downgrade, wp_upgrade, wp_drop);
    let x: Pod = any();
    unsafe {
        let p = ManuallyDrop::new(SharedPtr::new(x));
        kani::assert(OPS[2] == 1 && tag(&p) == 2, "R07 SharedPtr::new calls the constructor for its type");
        let at = G.key;
        kani::assert(p.as_ref().unwrap() as *const Pod as usize == at && p.as_ref().unwrap().id() == x.id() && OPS[4] >= 1, "R07 SharedPtr::new moves the value into C++'s allocation");
        let c = ManuallyDrop::new((*p).clone());
        kani::assert(OPS[1] == 1 && tag(&c) == 1 && G.key == &*p as *const _ as usize, "R07 clone");
        let w = ManuallyDrop::new(p.downgrade());
        kani::assert(OPS[7] == 1 && tag(&w) == 7 && G.key == &*p as *const _ as usize, "R07 downgrade");
        let w2 = ManuallyDrop::new((*w).clone());
        kani::assert(OPS[6] == 1 && tag(&w2) == 6 && G.key == &*w as *const _ as usize, "R07 weak clone");
        let s = ManuallyDrop::new(w2.upgrade());
        kani::assert(OPS[8] == 1 && tag(&s) == 8 && G.key == &*w2 as *const _ as usize, "R07 upgrade");
        let n = ManuallyDrop::new(SharedPtr::<Pod>::null());
        kani::assert(OPS[0] == 1 && tag(&n) == 0, "R07 null");
        let nw = ManuallyDrop::new(WeakPtr::<Pod>::null());
        kani::assert(OPS[5] == 1 && tag(&nw) == 5, "R07 weak null");
        kani::assert(OPS[3] == 0 && OPS[9] == 0, "R07 nothing destroyed so far");
        drop(ManuallyDrop::into_inner(s));
        drop(ManuallyDrop::into_inner(w));
        kani::assert(OPS[3] == 1 && OPS[9] == 1, "R07 each owner is destroyed by its own destructor");
    }
}
mod vec_pod {
    use super::*;
    pub static mut SIZE: usize = 0;
    pub static mut SEEN: [usize; 6] = [0; 6];
    #[export_name = "cxxbridge1$std$vector$n$Pod$new"]
    pub unsafe extern "C" fn new() -> *mut CxxVector<Pod> { unsafe { SEEN[0] += 1; G.key as *mut CxxVector<Pod> } }
    #[export_name = "cxxbridge1$std$vector$n$Pod$size"]
    pub unsafe extern "C" fn size(v: &CxxVector<Pod>) -> usize { unsafe { SEEN[1] = v as *const _ as usize; SIZE } }
    #[export_name = "cxxbridge1$std$vector$n$Pod$get_unchecked"]
    pub unsafe extern "C" fn get_unchecked(v: *mut CxxVector<Pod>, pos: usize) -> *mut core::ffi::c_void { unsafe { SEEN[2] = v as usize; SEEN[3] = pos; G.id[0] as *mut core::ffi::c_void } }
    #[export_name = "cxxbridge1$std$vector$n$Pod$push_back"]
    pub unsafe extern "C" fn push_back(v: Pin<&mut CxxVector<Pod>>, value: *mut core::ffi::c_void) { unsafe { SEEN[4] += 1; G.key = &*v as *const _ as usize; IDS[0] = (*value.cast::<Pod>()).id() } }
    #[export_name = "cxxbridge1$std$vector$n$Pod$pop_back"]
    pub unsafe extern "C" fn pop_back(v: Pin<&mut CxxVector<Pod>>, out: *mut core::ffi::c_void) { unsafe { SEEN[5] += 1; G.key = &*v as *const _ as usize; let x: Pod = any(); IDS[1] = x.id(); out.cast::<Pod>().write(x) } }
    unique_contract_rt!(up "vector$n$Pod" CxxVector<Pod>;);
    pub fn link() { up::link(); keep(&[new as *const (), size as *const (), get_unchecked as *const (), push_back as *const (), pop_back as *const ()]) }
}
#[kani::proof]
fn r07_target_vector() {
    link!();
    vec_pod::link();
    unsafe {
        let n: usize = any();
        kani::assume(n <= 1 << 30);
        vec_pod::SIZE = n;
        let mut v = any_addr_pin::<CxxVector<Pod>>();
        let at = &*v as *const CxxVector<Pod> as usize;
        kani::assert(v.len() == n && vec_pod::SEEN[1] == at, "R07 len is the vector's own size");
        let elems = fresh::<Pod>(1);
        G.id[0] = elems as usize;
        let i: usize = any();
        let got = v.get(i).map(|p| p as *const Pod as usize);
        kani::assert(got == if i < n { Some(elems as usize) } else { None } && (i >= n || (vec_pod::SEEN[2] == at && vec_pod::SEEN[3] == i)), "R07 get addresses that element of that vector");
        let x: Pod = any();
        v.as_mut().push(x);
        kani::assert(vec_pod::SEEN[4] == 1 && G.key == at && IDS[0] == x.id(), "R07 push hands over the value");
        let y = v.as_mut().pop();
        kani::assert(match y { Some(y) => n > 0 && vec_pod::SEEN[5] == 1 && G.key == at && y.id() == IDS[1], None => n == 0 && vec_pod::SEEN[5] == 0 }, "R07 pop moves the last element out");
        let at2: usize = any();
        kani::assume(at2 != 0);
        G.key = at2;
        let p = CxxVector::<Pod>::new();
        kani::assert(vec_pod::SEEN[0] == 1 && p.as_ptr() as usize == at2, "R07 CxxVector::new owns the vector C++ made");
        drop(p);
        kani::assert(C_DROPS == 1 && C_LAST == at2, "R07 and destroys it once");
    }
}

// =================================================================================================
// R08: receivers, several arguments, vectors, boxes, layout
// =================================================================================================
pub fn rt_unit(k: &mut Key) -> Result<(), Msg> { unsafe { G.calls += 1; G.key = k as *const Key as usize; G.ok = any(); if G.ok { Ok(()) } else { Err(Msg) } } }
unsafe extern "C" {
    #[link_name = "n$cxxbridge1$rt_unit"]
    fn e_rt_unit(k: &mut Key) -> cxx::private::Result;
}
#[kani::proof]
fn r08_try_unit() {
    reach!(V_n_cxxbridge1_rt_unit);
    link!(c_error);
    let mut k = Key(1);
    let ka = &k as *const Key as usize;
    unsafe {
        let r: [usize; 2] = core::mem::transmute(e_rt_unit(&mut k));
        kani::assert(G.calls == 1 && G.key == ka && (r[0] == 0) == G.ok && ERRORS == !G.ok as usize, "R08 a fallible function without value reports its outcome");
    }
}
pub fn r_combo(a: Pod, b: String, c: bool, d: Pod, e: Vec<R>, f: &str, g: E) -> Pod {
    unsafe { G.calls += 1; IDS = [a.id(), b.id(), c.id(), d.id(), e.id(), f.id(), g.id()]; eat_vec(e); let v: Pod = any(); G.id = v.id(); v }
}
unsafe extern "C" {
    #[link_name = "n$cxxbridge1$r_combo"]
    fn e_r_combo(a: *mut Pod, b: *mut cxx::private::RustString, c: bool, d: *mut Pod, e: *mut cxx::private::RustVec<R>, f: cxx::private::RustStr, g: E, ret: *mut Pod);
}
#[kani::proof]
fn r08_combo() {
    reach!(V_n_cxxbridge1_r_combo);
    let (mut a, b, c, mut d, e, f, g): (Pod, String, bool, Pod, Vec<R>, &str, E) = (any(), some_string(), any(), any(), Vec::from([any_r()]), any_str(), any());
    let ids = [a.id(), b.id(), c.id(), d.id(), e.id(), f.id(), g.id()];
    let mut b = ManuallyDrop::new(b);
    let mut e = ManuallyDrop::new(e);
    let mut ret = MaybeUninit::<Pod>::uninit();
    unsafe {
        e_r_combo(&mut a, (&raw mut *b).cast(), c, &mut d, (&raw mut *e).cast(), cxx::private::RustStr::from(f), g, ret.as_mut_ptr());
        kani::assert(G.calls == 1 && sames(IDS, ids), "R08 every argument arrives in its position");
        kani::assert(ret.assume_init().id() == G.id && R_DROPS == 1, "R08 value and ownership through out-parameter and arguments");
    }
}
impl R {
    pub fn rget(&self, pre: u8, x: String) -> u32 { unsafe { G.calls += 1; G.key = self as *const R as usize; G.pre = pre; IDS[0] = x.id(); let r: u32 = any(); G.id = r.id(); r } }
    pub fn rset(&mut self, pre: u8, x: Box<R>) -> Result<String, Msg> {
        unsafe { G.calls += 1; G.key = self as *const R as usize; G.pre = pre; IDS[0] = x.id(); G.ok = any(); if !G.ok { return Err(Msg); } let r = any_string(); G.id = r.id(); Ok(r) }
    }
}
impl M {
    pub fn mget(&self, pre: u8) -> u32 { unsafe { G.calls += 1; G.key = self as *const M as usize; G.pre = pre; let r: u32 = any(); G.id = r.id(); r } }
    pub fn mset(&mut self, pre: u8, x: Pod) -> Pod { unsafe { G.calls += 1; G.key = self as *const M as usize; G.pre = pre; IDS[0] = x.id(); let r: Pod = any(); G.id = r.id(); r } }
}
unsafe extern "C" {
    #[link_name = "n$cxxbridge1$R$rget"]
    fn e_rget(this: &R, pre: u8, x: *mut cxx::private::RustString) -> u32;
    #[link_name = "n$cxxbridge1$R$rset"]
    fn e_rset(this: &mut R, pre: u8, x: *mut R, ret: *mut cxx::private::RustString) -> cxx::private::Result;
    #[link_name = "n$cxxbridge1$M$mget"]
    fn e_mget(this: &M, pre: u8) -> u32;
    #[link_name = "n$cxxbridge1$M$mset"]
    fn e_mset(this: &mut M, pre: u8, x: *mut Pod, ret: *mut Pod);
}
#[kani::proof]
fn r08_method_ref() {
    reach!(V_n_cxxbridge1_R_rget);
    let this = any_r();
    let x = any_string();
    let (id, pre): (_, u8) = (x.id(), any());
    let mut x = ManuallyDrop::new(x);
    unsafe {
        let r = e_rget(&this, pre, (&raw mut *x).cast());
        kani::assert(G.calls == 1 && G.key == &this as *const R as usize && G.pre == pre && IDS[0] == id && r.id() == G.id && R_DROPS == 0, "R08 method: receiver, arguments and result");
    }
}
#[kani::proof]
fn r08_method_mut() {
    reach!(V_n_cxxbridge1_R_rset);
    link!(c_error);
    let mut this = any_r();
    let at = &this as *const R as usize;
    let x = Box::new(any_r());
    let (id, pre): (_, u8) = (x.id(), any());
    let mut ret = MaybeUninit::<String>::uninit();
    unsafe {
        let r: [usize; 2] = core::mem::transmute(e_rset(&mut this, pre, Box::into_raw(x), ret.as_mut_ptr().cast()));
        kani::assert(G.calls == 1 && G.key == at && G.pre == pre && IDS[0] == id && R_DROPS == 1, "R08 mutable method: receiver and arguments");
        kani::assert((r[0] == 0) == G.ok && (!G.ok || ret.assume_init().id() == G.id), "R08 mutable method: outcome");
    }
}
#[kani::proof]
fn r08_method_struct() {
    reach!(V_n_cxxbridge1_M_mget, V_n_cxxbridge1_M_mset);
    let pre: u8 = any();
    let mut m = any_m();
    let at = &m as *const M as usize;
    unsafe {
        let r = e_mget(&m, pre);
        kani::assert(G.calls == 1 && G.key == at && G.pre == pre && r.id() == G.id, "R08 method of a shared struct");
        let mut x: Pod = any();
        let id = x.id();
        let mut ret = MaybeUninit::<Pod>::uninit();
        e_mset(&mut m, pre, &mut x, ret.as_mut_ptr());
        kani::assert(G.calls == 2 && G.key == at && IDS[0] == id && ret.assume_init().id() == G.id, "R08 mutable method of a shared struct");
    }
}
pub fn r_renamed_rust(a: u32) -> u32 { unsafe { G.calls += 1; IDS[0] = a.id(); let r: u32 = any(); G.id = r.id(); r } }
pub fn r_other_ns(a: u32) -> u32 { unsafe { G.calls += 100; IDS[0] = a.id(); let r: u32 = any(); G.id = r.id(); r } }
unsafe extern "C" {
    #[link_name = "n$cxxbridge1$r_renamed_rust"]
    fn e_renamed(a: u32) -> u32;
    #[link_name = "other$cxxbridge1$r_other_ns"]
    fn e_other(a: u32) -> u32;
    #[link_name = "n$cxxbridge1$R$operator$sizeof"]
    fn e_sizeof() -> usize;
    #[link_name = "n$cxxbridge1$R$operator$alignof"]
    fn e_alignof() -> usize;
}
#[kani::proof]
fn r08_names() {
    reach!(V_n_cxxbridge1_r_renamed_rust, V_other_cxxbridge1_r_other_ns);
    unsafe {
        let a: u32 = any();
        let r = e_renamed(a);
        kani::assert(G.calls == 1 && IDS[0] == a.id() && r.id() == G.id, "R08 a renamed function is its own entry point");
        let b: u32 = any();
        let r = e_other(b);
        kani::assert(G.calls == 101 && IDS[0] == b.id() && r.id() == G.id, "R08 a function in another namespace is its own entry point");
    }
}
#[kani::proof]
fn r08_layout() {
    reach!(V_n_cxxbridge1_R_operator_sizeof, V_n_cxxbridge1_R_operator_alignof);
    unsafe { kani::assert(e_sizeof() == core::mem::size_of::<R>() && e_alignof() == core::mem::align_of::<R>(), "R08 C++ sees an opaque Rust type's own size and alignment") }
}
macro_rules! vec_contract {
    ($($m:ident $sym:literal $ty:ty, $mk:expr, $drops:expr, ($new:ident $drop:ident $len:ident $capacity:ident $data:ident $reserve_total:ident $set_len:ident $truncate:ident);)*) => { $(
        mod $m {
            use super::*;
            use cxx::private::RustVec;
            unsafe extern "C" {
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$new")] fn e_new(this: *mut RustVec<$ty>);
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$drop")] fn e_drop(this: *mut RustVec<$ty>);
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$len")] fn e_len(this: *const RustVec<$ty>) -> usize;
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$capacity")] fn e_capacity(this: *const RustVec<$ty>) -> usize;
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$data")] fn e_data(this: *const RustVec<$ty>) -> *const $ty;
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$reserve_total")] fn e_reserve_total(this: *mut RustVec<$ty>, cap: usize);
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$set_len")] fn e_set_len(this: *mut RustVec<$ty>, len: usize);
                #[link_name = concat!("cxxbridge1$rust_vec$", $sym, "$truncate")] fn e_truncate(this: *mut RustVec<$ty>, len: usize);
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn r08_vec_views() {
                reach!($new, $len, $capacity, $data);
                unsafe {
                    let mut m = MaybeUninit::<Vec<$ty>>::uninit();
                    e_new(m.as_mut_ptr().cast());
                    let v = m.assume_init();
                    kani::assert(v.len() == 0 && v.capacity() == 0, "R08 a new vector is empty");
                    let v = ManuallyDrop::new($mk);
                    let p = (&raw const *v).cast::<RustVec<$ty>>();
                    kani::assert(e_len(p) == v.len() && e_capacity(p) == v.capacity() && e_data(p) == v.as_ptr(), "R08 len, capacity and data are that vector's");
                }
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn r08_vec_set_len() {
                reach!($set_len);
                unsafe {
                    let mut v = ManuallyDrop::new($mk);
                    let (at, cap, n): (usize, usize, usize) = (v.as_ptr() as usize, v.capacity(), any());
                    kani::assume(n <= cap);
                    e_set_len((&raw mut *v).cast(), n);
                    kani::assert(v.len() == n && v.as_ptr() as usize == at && v.capacity() == cap && R_DROPS == 0, "R08 set_len only sets the length");
                }
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn r08_vec_truncate_bounded() {
                reach!($truncate);
                unsafe {
                    let mut v = ManuallyDrop::new(Vec::<$ty>::with_capacity(3));
                    let len: usize = any();
                    kani::assume(len <= 3);
                    v.set_len(len);
                    let (at, n): (usize, usize) = (v.as_ptr() as usize, any());
                    e_truncate((&raw mut *v).cast(), n);
                    kani::assert(v.len() == if n < len { n } else { len } && v.as_ptr() as usize == at, "R08 truncate keeps the first n elements");
                    kani::assert(R_DROPS == if $drops && n < len { len - n } else { 0 }, "R08 truncate drops exactly the removed elements");
                }
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn r08_vec_drop_bounded() {
                reach!($drop);
                unsafe {
                    let mut v = ManuallyDrop::new(Vec::<$ty>::with_capacity(3));
                    let len: usize = any();
                    kani::assume(len <= 3);
                    v.set_len(len);
                    e_drop((&raw mut *v).cast());
                    kani::assert(R_DROPS == if $drops { len } else { 0 }, "R08 drop destroys every element once");
                }
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn r08_vec_reserve_bounded() {
                reach!($reserve_total);
                unsafe {
                    let mut v = ManuallyDrop::new(Vec::<$ty>::with_capacity(2));
                    let len: usize = any();
                    kani::assume(len <= 2);
                    v.set_len(len);
                    let (n, cap, at): (usize, usize, usize) = (any(), v.capacity(), v.as_ptr() as usize);
                    kani::assume(n <= 8);
                    e_reserve_total((&raw mut *v).cast(), n);
                    kani::assert(v.len() == len && v.capacity() >= n && v.capacity() >= cap, "R08 reserve makes room for the total and keeps the length");
                    kani::assert(n > cap || (v.as_ptr() as usize == at && v.capacity() == cap), "R08 reserve does nothing when there is room");
                    kani::assert(R_DROPS == 0, "R08 reserve drops nothing");
                }
            }
        }
    )* }
}
vec_contract! {
    v_pod "n$Pod" Pod, any_vec::<Pod>(), false, (V_cxxbridge1_rust_vec_n_Pod_new V_cxxbridge1_rust_vec_n_Pod_drop V_cxxbridge1_rust_vec_n_Pod_len V_cxxbridge1_rust_vec_n_Pod_capacity V_cxxbridge1_rust_vec_n_Pod_data V_cxxbridge1_rust_vec_n_Pod_reserve_total V_cxxbridge1_rust_vec_n_Pod_set_len V_cxxbridge1_rust_vec_n_Pod_truncate);
    v_r "n$R" R, Vec::from([any_r(), any_r()]), true, (V_cxxbridge1_rust_vec_n_R_new V_cxxbridge1_rust_vec_n_R_drop V_cxxbridge1_rust_vec_n_R_len V_cxxbridge1_rust_vec_n_R_capacity V_cxxbridge1_rust_vec_n_R_data V_cxxbridge1_rust_vec_n_R_reserve_total V_cxxbridge1_rust_vec_n_R_set_len V_cxxbridge1_rust_vec_n_R_truncate);
    v_e "n$E" E, any_vec::<E>(), false, (V_cxxbridge1_rust_vec_n_E_new V_cxxbridge1_rust_vec_n_E_drop V_cxxbridge1_rust_vec_n_E_len V_cxxbridge1_rust_vec_n_E_capacity V_cxxbridge1_rust_vec_n_E_data V_cxxbridge1_rust_vec_n_E_reserve_total V_cxxbridge1_rust_vec_n_E_set_len V_cxxbridge1_rust_vec_n_E_truncate);
}
unsafe extern "C" {
    #[link_name = "cxxbridge1$box$n$R$alloc"] fn e_box_alloc() -> *mut MaybeUninit<R>;
    #[link_name = "cxxbridge1$box$n$R$dealloc"] fn e_box_dealloc(p: *mut MaybeUninit<R>);
    #[link_name = "cxxbridge1$box$n$R$drop"] fn e_box_drop(p: *mut Box<R>);
}
#[kani::proof]
fn r08_box() {
    reach!(V_cxxbridge1_box_n_R_alloc, V_cxxbridge1_box_n_R_dealloc, V_cxxbridge1_box_n_R_drop);
    unsafe {
        let c: u32 = any();
        let p = e_box_alloc();
        let q = e_box_alloc();
        kani::assert(!p.is_null() && p != q, "R08 alloc gives fresh memory");
        e_box_dealloc(q);
        kani::assert(R_DROPS == 0, "R08 dealloc frees memory without dropping a value");
        (*p).write(R { c });
        let mut b = ManuallyDrop::new(Box::from_raw(p.cast::<R>()));
        e_box_drop(&raw mut *b);
        kani::assert(R_DROPS == 1 && R_LAST == c, "R08 drop destroys the boxed value once");
    }
}

// =================================================================================================
// R09: derives
// =================================================================================================
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
mod twin {
    use super::{E, R};
    // What the standard derives give for the same declaration.
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct All { pub a: u32, pub b: i8, pub c: bool, pub d: u16 }
    #[derive(Clone, Debug, Default, PartialEq, PartialOrd)]
    pub struct Part { pub x: f64, pub y: u32, pub z: f32 }
}
struct Rec { buf: [u8; 24], len: usize }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() { self.buf[self.len % 24] = bytes[i]; self.len += 1; i += 1; }
    }
}
fn rec<T: Hash>(x: &T) -> Rec { let mut r = Rec { buf: [0; 24], len: 0 }; x.hash(&mut r); r }
fn any_all() -> (ffi::All, twin::All) {
    let (a, b, c, d): (u32, i8, bool, u16) = (any(), any(), any(), any());
    (ffi::All { a, b, c, d }, twin::All { a, b, c, d })
}
fn any_part() -> (ffi::Part, twin::Part) {
    let (x, y, z): (f64, u32, f32) = (any(), any(), any());
    (ffi::Part { x, y, z }, twin::Part { x, y, z })
}
macro_rules! cmp_contract { ($f:ident $mk:ident) => {
    #[kani::proof]
    fn $f() {
        let ((x, tx), (y, ty)) = ($mk(), $mk());
        kani::assert((x == y) == (tx == ty), "R09 == is the field-wise derive");
        kani::assert((x != y) == (tx != ty), "R09 != is the field-wise derive");
        kani::assert(x.partial_cmp(&y) == tx.partial_cmp(&ty), "R09 partial_cmp is the field-wise derive, in declaration order");
        kani::assert((x < y) == (tx < ty) && (x <= y) == (tx <= ty) && (x > y) == (tx > ty) && (x >= y) == (tx >= ty), "R09 the four orderings agree");
    }
} }
cmp_contract!(r09_compare_all any_all);
cmp_contract!(r09_compare_part any_part);
#[kani::proof]
fn r09_ord_all() {
    let ((x, tx), (y, ty)) = (any_all(), any_all());
    kani::assert(x.cmp(&y) == tx.cmp(&ty), "R09 cmp is the field-wise derive, in declaration order");
    kani::assert(x.partial_cmp(&y) == Some(x.cmp(&y)), "R09 partial_cmp agrees with cmp");
}
#[kani::proof]
#[kani::unwind(10)]
fn r09_hash_all() {
    let (x, tx) = any_all();
    let (h, t) = (rec(&x), rec(&tx));
    let i: usize = any();
    kani::assume(i < 24);
    kani::assert(h.len == t.len && h.buf[i] == t.buf[i], "R09 hash feeds every field as the derive does");
}
#[kani::proof]
fn r09_clone_default() {
    let (x, _) = any_all();
    let c = x.clone();
    kani::assert(c.a == x.a && c.b == x.b && c.c == x.c && c.d == x.d, "R09 clone copies every field");
    let (p, _) = any_part();
    let q = p.clone();
    kani::assert(q.x.to_bits() == p.x.to_bits() && q.y == p.y && q.z.to_bits() == p.z.to_bits(), "R09 clone copies every field");
    let (d, td) = (ffi::All::default(), twin::All::default());
    kani::assert(d.a == td.a && d.b == td.b && d.c == td.c && d.d == td.d, "R09 default of every field");
    let (d, td) = (ffi::Part::default(), twin::Part::default());
    kani::assert(d.x == td.x && d.y == td.y && d.z == td.z, "R09 default of every field");
}
static mut CLONES: usize = 0;
#[derive(PartialEq)]
pub struct Counted(pub u32);
impl Clone for Counted { fn clone(&self) -> Counted { unsafe { CLONES += 1 }; Counted(self.0) } }
#[kani::proof]
fn r09_clone_owned() {
    let o = ffi::Own { n: any(), b: Box::new(Counted(any())), k: any() };
    let c = o.clone();
    unsafe { kani::assert(CLONES == 1 && c.b.0 == o.b.0 && &*c.b as *const Counted != &*o.b as *const Counted && c.n == o.n && c.k == o.k, "R09 clone clones each field once into its own place") }
}
struct Sink { buf: [u8; 48], len: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let b = s.as_bytes();
        if b.len() > 48 - self.len { return Err(core::fmt::Error); }
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), self.buf.as_mut_ptr().add(self.len), b.len()) };
        self.len += b.len();
        Ok(())
    }
}
mod twin2 {
    #[derive(Debug)]
    pub struct Dbg { pub first: bool, pub second: bool }
}
fn show<T: core::fmt::Debug>(x: &T, alt: bool) -> Sink {
    use core::fmt::Write;
    let mut s = Sink { buf: [0; 48], len: 0 };
    let r = if alt { write!(s, "{:#?}", x) } else { write!(s, "{:?}", x) };
    kani::assert(r.is_ok(), "R09 formatting succeeds");
    s
}
fn eqs(x: &Sink, y: &Sink) -> bool { let i: usize = any(); kani::assume(i < 48); x.len == y.len && x.buf[i] == y.buf[i] }
#[kani::proof]
#[kani::unwind(50)]
fn r09_debug_struct() {
    let (first, second): (bool, bool) = (any(), any());
    let x = ffi::Dbg { first, second };
    let t = twin2::Dbg { first, second };
    kani::assert(eqs(&show(&x, false), &show(&t, false)), "R09 Debug prints what the derive prints");
}
#[kani::proof]
#[kani::unwind(12)]
fn r09_debug_enum_named() {
    let e = E { repr: any() };
    kani::assume(e == E::A || e == E::B || e == E::Z);
    let s = show(&e, false);
    kani::assert(s.len == 1 && s.buf[0] == if e == E::A { b'A' } else if e == E::B { b'B' } else { b'Z' }, "R09 a named enum value prints its name");
}
#[kani::proof]
#[kani::unwind(12)]
fn r09_debug_enum_unnamed() {
    let e = E { repr: any() };
    kani::assume(e.repr < 10 && e != E::A && e != E::B && e != E::Z);
    let s = show(&e, false);
    kani::assert(s.len == 4 && s.buf[0] == b'E' && s.buf[1] == b'(' && s.buf[2] == b'0' + e.repr && s.buf[3] == b')', "R09 an unnamed enum value prints its number");
}
#[kani::proof]
#[kani::unwind(10)]
fn r09_enum() {
    let (x, y): (E, E) = (any(), any());
    kani::assert((x == y) == (x.repr == y.repr), "R09 enum equality is numeric");
    kani::assert(x.cmp(&y) == x.repr.cmp(&y.repr) && x.partial_cmp(&y) == Some(x.repr.cmp(&y.repr)), "R09 enum order is numeric");
    kani::assert((x < y) == (x.repr < y.repr) && (x <= y) == (x.repr <= y.repr), "R09 enum order operators are numeric");
    kani::assert(x.clone().repr == x.repr, "R09 enum clone");
    let (h, t) = (rec(&x), rec(&x.repr));
    kani::assert(h.len == t.len && h.buf[0] == t.buf[0], "R09 enum hash is the number's");
    let (p, q): (E64, E64) = (any(), any());
    kani::assert((p == q) == (p.repr == q.repr), "R09 signed enum equality is numeric");
    kani::assert(p.cmp(&q) == p.repr.cmp(&q.repr), "R09 signed enum order is numeric");
    let z: i64 = p.repr;
    let w: u8 = x.repr;
    kani::assert(E::A.repr == 3 && E::B.repr == 4 && E::Z.repr == 9 && E64::N.repr == -5 && E64::M.repr == -4 && E64::X.repr == 77, "R09 variants have their declared values");
    kani::assert(match x { E::A => x.repr == 3, E::B => x.repr == 4, E::Z => x.repr == 9, _ => x.repr != 3 && x.repr != 4 && x.repr != 9 }, "R09 variants match as patterns");
}
macro_rules! ops { ($($e:ident $sym:literal $ty:ty;)*) => { unsafe extern "C" { $( #[link_name = $sym] fn $e(a: &$ty, b: &$ty) -> bool; )* } } }
ops! {
    op_all_eq "n$cxxbridge1$All$operator$eq" ffi::All; op_all_lt "n$cxxbridge1$All$operator$lt" ffi::All; op_all_le "n$cxxbridge1$All$operator$le" ffi::All;
    op_part_eq "n$cxxbridge1$Part$operator$eq" ffi::Part; op_part_ne "n$cxxbridge1$Part$operator$ne" ffi::Part; op_part_lt "n$cxxbridge1$Part$operator$lt" ffi::Part;
    op_part_le "n$cxxbridge1$Part$operator$le" ffi::Part; op_part_gt "n$cxxbridge1$Part$operator$gt" ffi::Part; op_part_ge "n$cxxbridge1$Part$operator$ge" ffi::Part;
}
unsafe extern "C" {
    #[link_name = "n$cxxbridge1$All$operator$hash"] fn op_all_hash(a: &ffi::All) -> usize;
}
#[kani::proof]
fn r09_operators_all() {
    reach!(V_n_cxxbridge1_All_operator_eq, V_n_cxxbridge1_All_operator_lt, V_n_cxxbridge1_All_operator_le);
    let ((x, tx), (y, ty)) = (any_all(), any_all());
    unsafe { kani::assert(op_all_eq(&x, &y) == (tx == ty) && op_all_lt(&x, &y) == (tx < ty) && op_all_le(&x, &y) == (tx <= ty), "R09 operators exported to C++ give the Rust answer for the same operands") }
}
#[kani::proof]
fn r09_operators_part() {
    reach!(V_n_cxxbridge1_Part_operator_eq, V_n_cxxbridge1_Part_operator_ne, V_n_cxxbridge1_Part_operator_lt, V_n_cxxbridge1_Part_operator_le, V_n_cxxbridge1_Part_operator_gt, V_n_cxxbridge1_Part_operator_ge);
    let ((x, tx), (y, ty)) = (any_part(), any_part());
    unsafe {
        kani::assert(op_part_eq(&x, &y) == (tx == ty) && op_part_ne(&x, &y) == (tx != ty), "R09 equality operators exported to C++");
        kani::assert(op_part_lt(&x, &y) == (tx < ty) && op_part_le(&x, &y) == (tx <= ty) && op_part_gt(&x, &y) == (tx > ty) && op_part_ge(&x, &y) == (tx >= ty), "R09 ordering operators exported to C++, NaN included");
    }
}
/// Contract of cxx::private::hash: a function of the object it is given.
pub static mut HASHED: usize = 0;
fn hash_contract<V: core::hash::Hash>(v: &V) -> usize { unsafe { G.calls += 1; HASHED = v as *const V as usize; G.key = any(); G.key } }
#[kani::proof]
#[kani::stub(cxx::private::hash, hash_contract)]
fn r09_operator_hash() {
    reach!(V_n_cxxbridge1_All_operator_hash);
    let (x, _) = any_all();
    unsafe {
        let h = op_all_hash(&x);
        kani::assert(G.calls == 1 && HASHED == &x as *const ffi::All as usize && h == G.key, "R09 the hash exported to C++ is the Rust hash of that object")
    }
}
