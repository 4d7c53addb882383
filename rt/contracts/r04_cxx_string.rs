//! Contracts of CxxString, let_cxx_string! and lossy formatting (property R04).
//!
//! C++ side contract: a std::string is (data, len) with data non-null and
//! data[len] == 0; `data`/`length` return them; `push` appends [ptr, ptr+len);
//! `init` constructs in the given storage; `destroy` ends it.
#![allow(dead_code, missing_docs, static_mut_refs, improper_ctypes_definitions)]
use super::*;
use crate::verif_ghost::{fresh, link_contracts, never, Rec, Sink};
use alloc::borrow::Cow;
use alloc::string::String;

#[repr(C)]
struct GString {
    data: *const u8,
    len: usize,
}
static mut LOG: [(u8, usize, usize, usize); 4] = [(0, 0, 0, 0); 4];
static mut N: usize = 0;
fn log(op: u8, a: usize, b: usize, c: usize) {
    unsafe {
        kani::assert(N < 4, "R04 no unexpected extra C++ call");
        LOG[N] = (op, a, b, c);
        N += 1;
    }
}
fn only(op: u8, a: usize, b: usize, c: usize) -> bool {
    unsafe { N == 1 && LOG[0] == (op, a, b, c) }
}
#[export_name = "cxxbridge1$cxx_string$init"]
unsafe extern "C" fn g_init(this: &mut MaybeUninit<CxxString>, ptr: *const u8, len: usize) {
    log(1, this as *mut _ as usize, ptr as usize, len);
}
#[export_name = "cxxbridge1$cxx_string$destroy"]
unsafe extern "C" fn g_destroy(this: &mut MaybeUninit<CxxString>) {
    log(2, this as *mut _ as usize, 0, 0);
}
#[export_name = "cxxbridge1$cxx_string$data"]
unsafe extern "C" fn g_data(this: &CxxString) -> *const u8 {
    unsafe { (*(this as *const CxxString as *const GString)).data }
}
#[export_name = "cxxbridge1$cxx_string$length"]
unsafe extern "C" fn g_length(this: &CxxString) -> usize {
    unsafe { (*(this as *const CxxString as *const GString)).len }
}
#[export_name = "cxxbridge1$cxx_string$clear"]
unsafe extern "C" fn g_clear(this: Pin<&mut CxxString>) {
    log(3, &*this as *const _ as usize, 0, 0);
}
#[export_name = "cxxbridge1$cxx_string$reserve_total"]
unsafe extern "C" fn g_reserve_total(this: Pin<&mut CxxString>, new_cap: usize) {
    log(4, &*this as *const _ as usize, new_cap, 0);
}
#[export_name = "cxxbridge1$cxx_string$push"]
unsafe extern "C" fn g_push(this: Pin<&mut CxxString>, ptr: *const u8, len: usize) {
    log(5, &*this as *const _ as usize, ptr as usize, len);
}
fn link() {
    link_contracts!(g_init, g_destroy, g_data, g_length, g_clear, g_reserve_total, g_push);
}
fn s(g: &GString) -> &CxxString {
    unsafe { &*(g as *const GString as *const CxxString) }
}
fn m(g: &mut GString) -> Pin<&mut CxxString> {
    unsafe { Pin::new_unchecked(&mut *(g as *mut GString as *mut CxxString)) }
}
fn bytes_at<'a>(len: usize) -> &'a [u8] {
    unsafe { slice::from_raw_parts(fresh::<u8>(len + 1), len) }
}

#[kani::proof]
fn r04_observers() {
    link();
    let len: usize = kani::any();
    kani::assume(len < 1 << 40);
    let data = fresh::<u8>(len + 1) as *const u8;
    let g = GString { data, len };
    kani::assert(s(&g).len() == len, "R04 len is the C++ length");
    kani::assert(s(&g).is_empty() == (len == 0), "R04 is_empty iff length is 0");
    kani::assert(s(&g).as_ptr() == data, "R04 as_ptr is the C++ data");
    let b = s(&g).as_bytes();
    kani::assert(b.as_ptr() == data && b.len() == len, "R04 as_bytes is exactly data..data+length, NUL bytes included");
    unsafe { kani::assert(N == 0, "R04 observers do not modify") };
}

#[kani::proof]
fn r04_push_bytes() {
    link();
    let mut g = GString { data: core::ptr::null(), len: kani::any() };
    let at = &g as *const GString as usize;
    let n: usize = kani::any();
    kani::assume(n < 1 << 40);
    let b = bytes_at(n);
    m(&mut g).push_bytes(b);
    kani::assert(only(5, at, b.as_ptr() as usize, n), "R04 push_bytes appends exactly the given bytes, once");
}
#[kani::proof]
fn r04_push_str() {
    link();
    let mut g = GString { data: core::ptr::null(), len: kani::any() };
    let at = &g as *const GString as usize;
    let n: usize = kani::any();
    kani::assume(n < 1 << 40);
    let b = unsafe { str::from_utf8_unchecked(bytes_at(n)) };
    if kani::any() {
        m(&mut g).push_str(b);
    } else {
        let mut p = m(&mut g);
        kani::assert(fmt::Write::write_str(&mut p, b).is_ok(), "R04 fmt::Write::write_str succeeds");
    }
    kani::assert(only(5, at, b.as_ptr() as usize, n), "R04 push_str appends exactly the given text, once");
}
#[kani::proof]
fn r04_io_write() {
    link();
    let mut g = GString { data: core::ptr::null(), len: kani::any() };
    let at = &g as *const GString as usize;
    let n: usize = kani::any();
    kani::assume(n < 1 << 40);
    let b = bytes_at(n);
    let mut p = m(&mut g);
    let r = std::io::Write::write(&mut p, b);
    kani::assert(matches!(r, Ok(k) if k == n), "R04 io::Write::write reports the whole buffer written");
    kani::assert(only(5, at, b.as_ptr() as usize, n), "R04 io::Write::write appends exactly the given bytes, once");
    kani::assert(std::io::Write::flush(&mut p).is_ok(), "R04 flush succeeds");
}
#[kani::proof]
fn r04_clear() {
    link();
    let mut g = GString { data: core::ptr::null(), len: kani::any() };
    let at = &g as *const GString as usize;
    m(&mut g).clear();
    kani::assert(only(3, at, 0, 0), "R04 clear clears this string, once");
}
#[kani::proof]
fn r04_reserve() {
    link();
    let len: usize = kani::any();
    let additional: usize = kani::any();
    kani::assume(len.checked_add(additional).is_some());
    let mut g = GString { data: core::ptr::null(), len };
    let at = &g as *const GString as usize;
    m(&mut g).reserve(additional);
    kani::assert(only(4, at, len + additional, 0), "R04 reserve(additional) asks for length+additional");
}
#[kani::proof]
#[kani::should_panic]
fn r04_reserve_overflow_panics() {
    link();
    let len: usize = kani::any();
    let additional: usize = kani::any();
    kani::assume(len.checked_add(additional).is_none());
    let mut g = GString { data: core::ptr::null(), len };
    m(&mut g).reserve(additional);
    never();
}

/// let_cxx_string!: constructed once from exactly the given bytes, inside
/// storage that is large and aligned enough, destroyed once at end of scope.
#[kani::proof]
fn r04_let_cxx_string() {
    link();
    let n: usize = kani::any();
    kani::assume(n < 1 << 40);
    let b = bytes_at(n);
    let at;
    {
        crate::let_cxx_string!(v = b);
        at = &*v as *const CxxString as usize;
        kani::assert(only(1, at, b.as_ptr() as usize, n), "R04 let_cxx_string constructs once, from exactly the given bytes");
    }
    unsafe { kani::assert(N == 2 && LOG[1] == (2, at, 0, 0), "R04 let_cxx_string destroys the string once at end of scope") };
    // std::string is 32 bytes (libstdc++) or 24 (libc++) with pointer alignment.
    kani::assert(core::mem::size_of::<StackString>() >= 32, "R04 stack storage is large enough for std::string");
    kani::assert(at % core::mem::align_of::<usize>() == 0, "R04 stack storage is aligned for std::string");
}
#[kani::proof]
fn r04_let_cxx_string_storage_is_own() {
    link();
    let mut st = StackString::new();
    let lo = &st as *const StackString as usize;
    let v = unsafe { st.init(b"ab") };
    let at = &*v as *const CxxString as usize;
    kani::assert(at >= lo && at + 32 <= lo + core::mem::size_of::<StackString>(), "R04 the string is constructed inside its own storage");
    core::mem::forget(st);
}

const K: usize = 4;
fn any_string(buf: &[u8; K + 1]) -> GString {
    let len: usize = kani::any();
    kani::assume(len <= K);
    GString { data: buf.as_ptr(), len }
}
#[kani::proof]
#[kani::unwind(7)]
fn r04_compare_bounded() {
    link();
    let (b1, b2): ([u8; K + 1], [u8; K + 1]) = (kani::any(), kani::any());
    let (g1, g2) = (any_string(&b1), any_string(&b2));
    let (x, y) = (&b1[..g1.len], &b2[..g2.len]);
    let want = {
        // lexicographic by unsigned byte, shorter first
        let mut i = 0;
        loop {
            if i == x.len() || i == y.len() {
                break x.len().cmp(&y.len());
            }
            if x[i] != y[i] {
                break if x[i] < y[i] { Ordering::Less } else { Ordering::Greater };
            }
            i += 1;
        }
    };
    kani::assert((s(&g1) == s(&g2)) == (want == Ordering::Equal), "R04 == is byte equality");
    kani::assert(s(&g1).cmp(s(&g2)) == want, "R04 cmp is bytewise lexicographic");
    kani::assert(s(&g1).partial_cmp(s(&g2)) == Some(want), "R04 partial_cmp agrees with cmp");
    let t = unsafe { str::from_utf8_unchecked(y) };
    kani::assert((s(&g1) == t) == (want == Ordering::Equal), "R04 CxxString == str is byte equality");
    kani::assert((t == s(&g1)) == (want == Ordering::Equal), "R04 str == CxxString is byte equality");
}
#[kani::proof]
#[kani::unwind(20)]
fn r04_hash_bounded() {
    link();
    let b: [u8; K + 1] = kani::any();
    let g = any_string(&b);
    let (mut h1, mut h2) = (Rec::new(), Rec::new());
    s(&g).hash(&mut h1);
    b[..g.len].hash(&mut h2);
    kani::assert(h1.same(&h2), "R04 hash is the hash of the bytes");
}
#[kani::proof]
#[kani::unwind(7)]
fn r04_c_str_bounded() {
    link();
    let mut b: [u8; K + 1] = kani::any();
    let g = any_string(&b);
    b[g.len] = 0;
    let c = s(&g).as_c_str();
    let first = b[..=g.len].iter().position(|x| *x == 0).unwrap();
    kani::assert(c.as_ptr() as *const u8 == b.as_ptr() && c.to_bytes().len() == first, "R04 as_c_str stops at the first NUL");
}

/// UTF-8 specification, independent of the standard library's decoder
/// (Unicode ch. 3, table 3-7): length of the well-formed sequence at the start
/// of `b` (0 if ill-formed), and length of the maximal ill-formed subpart.
fn utf8_at(b: &[u8]) -> (usize, usize) {
    let b0 = b[0];
    if b0 < 0x80 {
        return (1, 0);
    }
    let (n, lo, hi) = match b0 {
        0xC2..=0xDF => (2, 0x80, 0xBF),
        0xE0 => (3, 0xA0, 0xBF),
        0xED => (3, 0x80, 0x9F),
        0xE1..=0xEF => (3, 0x80, 0xBF),
        0xF0 => (4, 0x90, 0xBF),
        0xF4 => (4, 0x80, 0x8F),
        0xF1..=0xF3 => (4, 0x80, 0xBF),
        _ => return (0, 1),
    };
    if b.len() < 2 || b[1] < lo || b[1] > hi {
        return (0, 1);
    }
    if n == 2 {
        return (2, 0);
    }
    if b.len() < 3 || b[2] & 0xC0 != 0x80 {
        return (0, 2);
    }
    if n == 3 {
        return (3, 0);
    }
    if b.len() < 4 || b[3] & 0xC0 != 0x80 {
        return (0, 3);
    }
    (4, 0)
}
#[kani::proof]
#[kani::unwind(7)]
fn r04_to_str_bounded() {
    link();
    let b: [u8; K + 1] = kani::any();
    let g = any_string(&b);
    let mut valid = true;
    let mut i = 0;
    while i < g.len {
        let (ok, _) = utf8_at(&b[i..g.len]);
        if ok == 0 {
            valid = false;
            break;
        }
        i += ok;
    }
    match s(&g).to_str() {
        Ok(t) => kani::assert(valid && t.as_ptr() == b.as_ptr() && t.len() == g.len, "R04 to_str Ok is the whole well-formed string"),
        Err(e) => kani::assert(!valid && e.valid_up_to() == i, "R04 to_str Err exactly on ill-formed UTF-8"),
    }
    kani::cover(valid && g.len == 4 && b[0] >= 0xF0, "cover: 4-byte sequence");
    kani::cover(!valid, "cover: ill-formed");
}
fn lossy_ref<const M: usize>(b: &[u8], out: &mut Sink<M>) {
    use core::fmt::Write;
    let mut i = 0;
    while i < b.len() {
        let (ok, bad) = utf8_at(&b[i..]);
        if ok > 0 {
            let mut k = 0;
            while k < ok {
                out.buf[out.len] = b[i + k];
                out.len += 1;
                k += 1;
            }
            i += ok;
        } else {
            let _ = out.write_str("\u{FFFD}");
            i += bad;
        }
    }
}
const L: usize = if cfg!(verif_thorough) { 4 } else { 3 };
/// Contract of core::str::from_utf8, used in place of its body.
fn from_utf8_contract(v: &[u8]) -> Result<&str, Utf8Error> {
    struct E {
        valid_up_to: usize,
        error_len: Option<u8>,
    }
    let mut i = 0;
    while i < v.len() {
        let (ok, bad) = utf8_at(&v[i..]);
        if ok == 0 {
            let truncated = i + bad == v.len() && bad_is_prefix(&v[i..]);
            let e = E { valid_up_to: i, error_len: if truncated { None } else { Some(bad as u8) } };
            return Err(unsafe { core::mem::transmute::<E, Utf8Error>(e) });
        }
        i += ok;
    }
    Ok(unsafe { str::from_utf8_unchecked(v) })
}
/// Is the ill-formed `b` a proper prefix of some well-formed sequence?
fn bad_is_prefix(b: &[u8]) -> bool {
    let n = match b[0] {
        0xC2..=0xDF => 2,
        0xE0..=0xEF => 3,
        0xF0..=0xF4 => 4,
        _ => return false,
    };
    b.len() < n && (b.len() == 1 || utf8_at(b).1 == b.len())
}
#[kani::proof]
#[kani::unwind(6)]
fn r04_from_utf8_contract_bounded() {
    let b: [u8; 3] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 3);
    match (str::from_utf8(&b[..len]), from_utf8_contract(&b[..len])) {
        (Ok(x), Ok(y)) => kani::assert(x.as_ptr() == y.as_ptr() && x.len() == y.len(), "contract of from_utf8: value"),
        (Err(x), Err(y)) => kani::assert(x.valid_up_to() == y.valid_up_to() && x.error_len() == y.error_len(), "contract of from_utf8: error"),
        _ => kani::assert(false, "contract of from_utf8: verdict"),
    }
}
#[kani::proof]
#[kani::stub(core::str::from_utf8, from_utf8_contract)]
#[cfg_attr(not(verif_thorough), kani::unwind(5))]
#[cfg_attr(verif_thorough, kani::unwind(6))]
fn r04_display_bounded() {
    link();
    use core::fmt::Write;
    let b: [u8; L] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= L);
    let g = GString { data: b.as_ptr(), len };
    let mut got = Sink::<12>::new();
    let r = write!(got, "{}", s(&g));
    kani::assert(r.is_ok(), "R04 Display succeeds when the sink does");
    let mut want = Sink::<12>::new();
    lossy_ref(&b[..len], &mut want);
    let k: usize = kani::any();
    kani::assert(got.len == want.len && (k >= got.len || got.buf[k] == want.buf[k]), "R04 Display is the text with each ill-formed sequence replaced by U+FFFD");
}

