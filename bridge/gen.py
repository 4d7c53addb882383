#!/usr/bin/env python3
"""Writes the corpus bridge (bridge.rs: one #[cxx::bridge] module) and the contracts
for every generated function (lib.rs) from the table of type forms."""
import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from forms import FORMS
HERE = pathlib.Path(__file__).parent
NS = "n"

# forms that cannot be returned with an elided lifetime of a Rust &mut receiver argument etc. are listed in pos
def void_in(f):   # C++ side receives a void pointer
    t = f["ht"]
    if t.startswith("Box<"): return "*mut core::ffi::c_void", "Box::from_raw({}.cast::<R>())", "Box::into_raw({}).cast()"
    if t.startswith("UniquePtr<"): return "*mut core::ffi::c_void", f["inn"], f["out"]
    if t.startswith("Pin<&mut "):
        i = t[9:-1]
        return "*mut core::ffi::c_void", "Pin::new_unchecked(&mut *{}.cast::<%s>())" % i, "(Pin::into_inner_unchecked({}) as *mut %s).cast()" % i
    if t.startswith("&mut "): return "*mut core::ffi::c_void", "&mut *{}.cast::<%s>()" % t[5:], "({} as *mut %s).cast()" % t[5:]
    if t.startswith("&"): return "*const core::ffi::c_void", "&*{}.cast::<%s>()" % t[1:], "({} as *const %s).cast()" % t[1:]
    if t.startswith("*const "): return "*const core::ffi::c_void", "{}.cast::<%s>()" % t[7:], "{}.cast()"
    if t.startswith("*mut "): return "*mut core::ffi::c_void", "{}.cast::<%s>()" % t[5:], "{}.cast()"
    raise Exception(t)

def mutret(f): return "mut" in f["t"]
def abi_c(f): return void_in(f) if f["imp"] else (f["abi"], f["inn"], f["out"])
def isptr(f): return f["t"].startswith("*")
def u(f): return "unsafe " if isptr(f) else ""

def key(f):   # a parameter whose lifetime a returned reference can borrow
    return "k: &mut Key"

def bridge():
    o = []
    o.append('''#[cxx::bridge(namespace = "n")]
pub mod ffi {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    struct S { a: u32, b: Box<R>, c: String }
    #[derive(Clone, Copy, PartialEq, Eq)]
    struct Pod { a: u32, b: u16 }
    #[derive(Clone, Copy)]
    struct Small { e: E, f: E }
    #[derive(PartialOrd, Ord, Hash, Debug)]
    enum E { A = 3, B, Z = 9 }
    #[repr(i64)]
    #[derive(PartialOrd, Ord)]
    enum E64 { N = -5, M, X = 77 }
    struct M { n: u32, p: u64 }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct All { a: u32, b: i8, c: bool, d: u16 }
    #[derive(Clone, Debug, Default, PartialEq, PartialOrd)]
    struct Part { x: f64, y: u32, z: f32 }
    #[derive(Clone)]
    struct Own { n: u32, b: Box<Counted>, k: u32 }
    #[derive(Debug)]
    struct Dbg { first: bool, second: bool }
    extern "Rust" {
        type Key;
        type R;
        type Counted;
    }
    unsafe extern "C++" {
        include!("corpus.h");
        type C;
        type OpaqueAlias = crate::OpaqueAlias;
        type TrivialAlias = crate::TrivialAlias;
        type L<'a>;
        type c_char;
''')
    o[-1] = o[-1].replace("        type c_char;\n", "")
    for f in FORMS:
        t = f["t"]
        if "a" in f["pos"]:
            o.append(f"        {u(f)}fn ca_{f['n']}(pre: u8, x: {t}, post: u16);\n")
        if "r" in f["pos"]:
            o.append(f"        fn cr_{f['n']}(k: Pin<&mut C>) -> {t};\n")
            o.append(f"        fn ct_{f['n']}(k: Pin<&mut C>) -> Result<{t}>;\n")
    o.append('''        fn ct_unit(k: &mut Key) -> Result<()>;
        fn ct_args(a: String, b: UniquePtr<C>, c: SharedPtr<C>, d: &mut [u16], e: Box<R>) -> Result<S>;
        fn c_combo(a: Pod, b: String, c: bool, d: Pod, e: Vec<R>, f: &str, g: E) -> Pod;
        fn get(self: &C, pre: u8, x: String) -> u32;
        fn set(self: Pin<&mut C>, pre: u8, x: Box<R>) -> Result<String>;
        fn life<'a>(self: &L<'a>, x: &'a str) -> &'a R;
        fn get(self: &M, pre: u8) -> u32;
        fn set(self: &mut M, pre: u8, x: Pod) -> Pod;
        fn get(self: &TrivialAlias, pre: u8) -> u32;
        #[cxx_name = "renamed_cxx"]
        fn renamed_rust(a: u32) -> u32;
        unsafe fn c_fn(pre: u8, f: fn(u32, String, Pod) -> Box<R>, g: fn(&R) -> &R, post: u16);
        #[namespace = "other"]
        fn other_ns(a: u32) -> u32;
    }
    extern "Rust" {
''')
    for f in FORMS:
        t = f["t"]
        if "A" in f["pos"]:
            o.append(f"        {u(f)}fn ra_{f['n']}(pre: u8, x: {t}, post: u16);\n")
        if "R" in f["pos"]:
            o.append(f"        fn rr_{f['n']}({key(f)}) -> {t};\n")
            if "&" in t:
                o.append(f"        unsafe fn rt_{f['n']}<'a>(k: &'a mut Key) -> Result<{t.replace('&', chr(38) + chr(39) + 'a ')}>;\n")
            else:
                o.append(f"        fn rt_{f['n']}({key(f)}) -> Result<{t}>;\n")
    o.append('''        fn rt_unit(k: &mut Key) -> Result<()>;
        fn r_combo(a: Pod, b: String, c: bool, d: Pod, e: Vec<R>, f: &str, g: E) -> Pod;
        fn rget(self: &R, pre: u8, x: String) -> u32;
        fn rset(self: &mut R, pre: u8, x: Box<R>) -> Result<String>;
        fn mget(self: &M, pre: u8) -> u32;
        fn mset(self: &mut M, pre: u8, x: Pod) -> Pod;
        #[cxx_name = "r_renamed_cxx"]
        fn r_renamed_rust(a: u32) -> u32;
        #[namespace = "other"]
        fn r_other_ns(a: u32) -> u32;
    }
    impl Vec<Pod> {}
    impl Box<Pod> {}
    impl Vec<E> {}
    impl UniquePtr<Pod> {}
    impl UniquePtr<OpaqueAlias> {}
    impl Vec<R> {}
    impl SharedPtr<Pod> {}
    impl WeakPtr<Pod> {}
    impl CxxVector<Pod> {}
    impl CxxVector<C> {}
}
''')
    return "".join(o)

def harnesses():
    o = []
    for f in FORMS:
        n, ht, mk = f["n"], f["ht"], f["mk"]
        uw = "\n#[kani::unwind(%d)]" % f['uw'] if f.get('uw') else ""
        un = "unsafe " if isptr(f) else ""
        # ---- C++ function taking the form
        if "a" in f["pos"]:
            if f["ind"]:
                ptr = "const" if f["t"] == "String" or f["t"].startswith("Vec<") else "mut"
                a, take = f"*{ptr} {f['abi_ind']}", f"core::ptr::read(x.cast::<{ht}>())"
            else:
                at, inn, _ = abi_c(f)
                a, take = at, inn.format("x")
            o.append(f'''
#[export_name = "n$cxxbridge1$ca_{n}"]
unsafe extern "C" fn c_ca_{n}(pre: u8, x: {a}, post: u16) {{
    unsafe {{
        G.calls += 1; G.pre = pre; G.post = post;
        let v: {ht} = {take};
        G.id = v.id();
        {f['eat']}(v); // C++ owns it now and destroys it
    }}
}}
#[kani::proof]{uw}
fn r07_arg_{n}() {{
    link!(c_ca_{n});
    let x: {ht} = {mk};
    let id = x.id();
    let (pre, post): (u8, u16) = (any(), any());
    {un}{{ ffi::ca_{n}(pre, x, post) }};
    unsafe {{
        kani::assert(G.calls == 1, "R07 the C++ function is called exactly once");
        kani::assert(G.pre == pre && G.post == post, "R07 neighbouring arguments keep value and position");
        kani::assert(same(G.id, id), "R07 the argument arrives unchanged");
        kani::assert(R_DROPS == {f['drops']}, "R07 Rust objects handed over are destroyed exactly once, by C++");
        kani::assert(C_DROPS == {f['cdrops']}, "R07 C++ owners handed over are destroyed exactly once, by C++");
    }}
}}
''')
        if "r" in f["pos"]:
            for thr in (False, True):
                p = "ct" if thr else "cr"
                out, ret, body = "", "", ""
                if f["ind"] or thr:
                    if f["ind"]: rt = f["abi_ind"]
                    else: rt = abi_c(f)[0]
                    out = f", ret: *mut {rt}"
                if thr:
                    ret = " -> cxx::private::Result"
                    outx = "v" if f["ind"] else abi_c(f)[2].format("v")
                    rty = ht if f["ind"] else abi_c(f)[0]
                    body = f'''let ok: bool = any();
        G.ok = ok;
        if !ok {{ return failure(); }}
        let v: {ht} = {mk};
        G.id = v.id();
        core::ptr::write(ret.cast::<{rty}>(), {outx});
        success()'''
                elif f["ind"]:
                    body = f'''let v: {ht} = {mk};
        G.id = v.id();
        core::ptr::write(ret.cast::<{ht}>(), v);'''
                else:
                    ret = f" -> {abi_c(f)[0]}"
                    if "&" in ret: ret = ret.replace("&", "&'static ", 1) if not ret.startswith(" -> Pin") else ret.replace("&", "&'static ")
                    body = f'''let v: {ht} = {mk};
        G.id = v.id();
        {abi_c(f)[2].format("v")}'''
                o.append(f'''
#[export_name = "n$cxxbridge1${p}_{n}"]
unsafe extern "C" fn c_{p}_{n}(k: Pin<&mut C>{out}){ret} {{
    unsafe {{
        G.calls += 1; G.key = &*k as *const C as usize;
        {body}
    }}
}}
''')
                if thr:
                    o.append(f'''#[kani::proof]{uw}
fn r07_try_{n}() {{
    link!(c_ct_{n});
    let mut k = any_addr_pin::<C>();
    let ka = &*k as *const C as usize;
    let r = ffi::ct_{n}(k.as_mut());
    unsafe {{
        kani::assert(G.calls == 1 && G.key == ka, "R07 the C++ function is called exactly once with its argument");
        kani::assert(r.is_ok() == G.ok, "R07 success and failure are those C++ reported");
        match r {{
            Ok(v) => {{
                kani::assert(same(v.id(), G.id), "R07 the success value is the one C++ produced");
                kani::assert(R_DROPS == 0 && C_DROPS == 0, "R07 the success value is not destroyed on the way");
                {f['eat']}(v);
                kani::assert(R_DROPS == {f['drops']} && C_DROPS == {f['cdrops']}, "R07 the caller owns the success value exactly once");
            }}
            Err(e) => {{
                kani::assert(e.what().len() == 0, "R07 the error is the one C++ reported");
                kani::assert(R_DROPS == 0 && C_DROPS == 0, "R07 nothing is read from the return slot on failure");
            }}
        }}
    }}
}}
''')
                else:
                    o.append(f'''#[kani::proof]{uw}
fn r07_ret_{n}() {{
    link!(c_cr_{n});
    let mut k = any_addr_pin::<C>();
    let ka = &*k as *const C as usize;
    let v = ffi::cr_{n}(k.as_mut());
    unsafe {{
        kani::assert(G.calls == 1 && G.key == ka, "R07 the C++ function is called exactly once with its argument");
        kani::assert(same(v.id(), G.id), "R07 the returned value is the one C++ produced");
        kani::assert(R_DROPS == 0 && C_DROPS == 0, "R07 the returned value is not destroyed on the way");
        {f['eat']}(v);
        kani::assert(R_DROPS == {f['drops']} && C_DROPS == {f['cdrops']}, "R07 the caller owns the returned value exactly once");
    }}
}}
''')
        # ---- Rust function taking / returning the form
        if "A" in f["pos"]:
            if f["ind"]:
                a = f"*mut {f['abi_ind']}"
                give = f"(&raw mut *cell).cast()"
                cell = f"let mut cell = ManuallyDrop::new(x);"
            else:
                a, give, cell = f["abi"], f["out"].format("x"), ""
            if "Alias" in f["ht"] and f["ht"].startswith("UniquePtr"): give = "UniquePtr::into_raw(x)"
            if f["n"] == "box": give = "Box::into_raw(x)"
            o.append(f'''
pub {un}fn ra_{n}(pre: u8, x: {ht}, post: u16) {{
    unsafe {{ G.calls += 1; G.pre = pre; G.post = post; G.id = x.id(); }}
    {f['eat']}(x);
}}
unsafe extern "C" {{
    #[link_name = "n$cxxbridge1$ra_{n}"]
    fn e_ra_{n}(pre: u8, x: {a}, post: u16);
}}
#[kani::proof]{uw}
fn r08_arg_{n}() {{
    reach!(V_n_cxxbridge1_ra_{n});
    let x: {ht} = {mk};
    let id = x.id();
    let (pre, post): (u8, u16) = (any(), any());
    {cell}
    unsafe {{
        e_ra_{n}(pre, {give}, post);
        kani::assert(G.calls == 1, "R08 the Rust function is called exactly once");
        kani::assert(G.pre == pre && G.post == post, "R08 neighbouring arguments keep value and position");
        kani::assert(same(G.id, id), "R08 the argument arrives unchanged");
        kani::assert(R_DROPS == {f['drops']}, "R08 Rust objects are destroyed exactly once, by the callee");
        kani::assert(C_DROPS == {f['cdrops']}, "R08 C++ owners are destroyed exactly once, by the callee");
    }}
}}
''')
        if "R" in f["pos"]:
            lt = ht
            if "&" in ht: lt = ht.replace("&", "&'static ")
            for thr in (False, True):
                p = "rt" if thr else "rr"
                rabi = f["abi_ind"] if f["ind"] else f["abi"]
                rb = rabi.replace("&", "&'static ") if "&" in rabi else rabi
                back = "core::ptr::read(ret.as_ptr().cast::<%s>())" % ht if f["ind"] else None
                inn = f["inn"]
                if thr:
                    o.append(f'''
pub {"unsafe " if "&" in f["t"] else ""}fn rt_{n}(k: &mut Key) -> core::result::Result<{lt}, Msg> {{
    unsafe {{
        G.calls += 1; G.key = k as *const Key as usize;
        G.ok = any();
        if !G.ok {{ return Err(Msg); }}
        let v: {ht} = {mk};
        G.id = v.id();
        Ok(v)
    }}
}}
unsafe extern "C" {{
    #[link_name = "n$cxxbridge1$rt_{n}"]
    fn e_rt_{n}(k: &mut Key, ret: *mut {rb}) -> cxx::private::Result;
}}
#[kani::proof]{uw}
fn r08_try_{n}() {{
    reach!(V_n_cxxbridge1_rt_{n});
    link!(c_error);
    let mut k = Key(7);
    let ka = &k as *const Key as usize;
    let mut ret = MaybeUninit::<{rb}>::uninit();
    unsafe {{
        let r = e_rt_{n}(&mut k, ret.as_mut_ptr());
        let r: [usize; 2] = core::mem::transmute(r);
        kani::assert(G.calls == 1 && G.key == ka, "R08 the Rust function is called exactly once with its argument");
        kani::assert((r[0] == 0) == G.ok, "R08 success and failure are those the Rust function returned");
        kani::assert(R_DROPS == 0 && C_DROPS == 0, "R08 the success value is not destroyed on the way");
        if G.ok {{
            kani::assert(ERRORS == 0, "R08 no message on success");
            let v: {ht} = {back or inn.format("ret.assume_init()")};
            kani::assert(same(v.id(), G.id), "R08 the success value is the one the Rust function produced");
            {f['eat']}(v);
            kani::assert(R_DROPS == {f['drops']} && C_DROPS == {f['cdrops']}, "R08 C++ owns the success value exactly once");
        }} else {{
            kani::assert(ERRORS == 1 && r[0] == ERROR_AT && r[1] == 3, "R08 the message of the error is handed over once");
        }}
    }}
}}
''')
                else:
                    sigret = "" if f["ind"] else f" -> {rb}"
                    out = f", ret: *mut {rb}" if f["ind"] else ""
                    call = (f"let mut ret = MaybeUninit::<{rb}>::uninit(); e_rr_{n}(&mut k, ret.as_mut_ptr()); let v: {ht} = {back};" if f["ind"]
                            else f"let v: {ht} = {inn.format(f'e_rr_{n}(&mut k)')};")
                    o.append(f'''
pub fn rr_{n}(k: &mut Key) -> {lt} {{
    unsafe {{
        G.calls += 1; G.key = k as *const Key as usize;
        let v: {ht} = {mk};
        G.id = v.id();
        v
    }}
}}
unsafe extern "C" {{
    #[link_name = "n$cxxbridge1$rr_{n}"]
    fn e_rr_{n}(k: &mut Key{out}){sigret};
}}
#[kani::proof]{uw}
fn r08_ret_{n}() {{
    reach!(V_n_cxxbridge1_rr_{n});
    let mut k = Key(7);
    let ka = &k as *const Key as usize;
    unsafe {{
        {call}
        kani::assert(G.calls == 1 && G.key == ka, "R08 the Rust function is called exactly once with its argument");
        kani::assert(same(v.id(), G.id), "R08 the returned value is the one the Rust function produced");
        kani::assert(R_DROPS == 0 && C_DROPS == 0, "R08 the returned value is not destroyed on the way");
        {f['eat']}(v);
        kani::assert(R_DROPS == {f['drops']} && C_DROPS == {f['cdrops']}, "R08 C++ owns the returned value exactly once");
    }}
}}
''')
    return "".join(o)

if __name__ == "__main__":
    out = pathlib.Path(sys.argv[1])
    out.mkdir(parents=True, exist_ok=True)
    (out / "lib.rs").write_text((HERE / "prelude.rs").read_text() + "\n" + bridge() + "\n#[cfg(kani)]\npub(crate) mod contracts {\nuse super::*;\n"
        + (HERE / "support.rs").read_text() + harnesses() + (HERE / "special.rs").read_text() + "}\n")
