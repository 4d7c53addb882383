//! Builders for bridge items, used by the contract harnesses. Everything is leaked: destructors of the generator's
//! own data are not of interest.
use crate::syntax::attrs::OtherAttrs;
use crate::syntax::cfg::CfgExpr;
use crate::syntax::derive::Derive;
use crate::syntax::map::{OrderedMap, UnorderedMap};
use crate::syntax::namespace::Namespace;
use crate::syntax::report::Errors;
use crate::syntax::set::{OrderedSet, UnorderedSet};
use crate::syntax::types::Types;
use crate::syntax::*;
use proc_macro2::{Ident, Span};
use syn::punctuated::Punctuated;
use syn::{Lifetime, LitInt, Token};

/// Objects live in typed static pools instead of the heap: CBMC then tracks their fields individually, so the shape
/// of a concrete type tree is known to symbolic execution.
macro_rules! pool { ($name:ident, $count:ident, $put:ident, $t:ty, $n:literal) => {
    static mut $name: [core::mem::ManuallyDrop<Option<$t>>; $n] = [const { core::mem::ManuallyDrop::new(None) }; $n];
    static mut $count: usize = 0;
    #[inline(always)]
    pub(crate) fn $put(t: $t) -> Box<$t> {
        unsafe {
            let i = $count;
            $count += 1;
            assert!(i < $n);
            let slot = (&raw mut $name[i]) as *mut Option<$t>;
            core::ptr::write(slot, Some(t));
            match &mut *slot { Some(x) => Box::from_raw(x as *mut $t), None => unreachable!() }
        }
    }
} }
pool!(TY1S, N_TY1, put_ty1, Ty1, 26);
pool!(REFS, N_REF, put_ref, Ref, 16);
pool!(PTRS, N_PTR, put_ptr, Ptr, 16);
pool!(SLICES, N_SLICE, put_slice, SliceRef, 16);
pool!(ARRAYS, N_ARRAY, put_array, Array, 26);
pool!(CFGS, N_CFG, put_cfg, crate::syntax::cfg::CfgExpr, 4);
pool!(SIGS, N_SIG, put_sig, Signature, 4);
/// A list of up to three elements in a typed pool.
macro_rules! vpool { ($name:ident, $count:ident, $put:ident, $t:ty, $n:literal) => {
    static mut $name: [core::mem::ManuallyDrop<[Option<$t>; 3]>; $n] = [const { core::mem::ManuallyDrop::new([None, None, None]) }; $n];
    static mut $count: usize = 0;
    pub(crate) fn $put<const N: usize>(ts: [$t; N]) -> Vec<$t> {
        if N == 0 { return Vec::new(); }
        assert!(N <= 3 && core::mem::size_of::<Option<$t>>() == core::mem::size_of::<$t>());
        unsafe {
            let i = $count;
            $count += 1;
            assert!(i < $n);
            let mut k = 0;
            for t in ts { core::ptr::write(&raw mut $name[i][k], Some(t)); k += 1; }
            match &mut $name[i][0] { Some(x) => Vec::from_raw_parts(x as *mut $t, N, N), None => unreachable!() }
        }
    }
} }
vpool!(VARS, N_VARS, vars, Var, 6);
vpool!(LIFES, N_LIFES, lifes, Lifetime, 4);
/// Bridge items. Slots are created as the right variant and filled field-wise: moving an `Api` as a whole would make
/// CBMC lose its contents (unions are copied as bytes).
pub(crate) const SP: Span = Span::call_site();
pub(crate) const DSP: proc_macro2::extra::DelimSpan = proc_macro2::extra::DelimSpan(SP);
struct DocTwin { _hidden: bool, _fragments: Vec<syn::LitStr> }
pub(crate) const DOC0: Doc = unsafe { core::mem::transmute::<DocTwin, Doc>(DocTwin { _hidden: false, _fragments: Vec::new() }) };
pub(crate) const PAIR0: Pair = Pair { namespace: Namespace::ROOT, cxx: unsafe { core::mem::transmute::<String, ForeignName>(String::new()) }, rust: Ident::of("") };
/// The condition on the constant items below.
pub(crate) const CFG0: CfgExpr = CfgExpr::Unconditional;
pub(crate) const LT0: Lifetimes = Lifetimes { lt_token: None, lifetimes: Punctuated::new(), gt_token: None };
macro_rules! tok { ($t:ident) => { syn::token::$t { span: SP } } }
pub(crate) use tok;
macro_rules! dtok { ($t:ident) => { syn::token::$t { span: DSP } } }
pub(crate) use dtok;
pub(crate) const SIG0: Signature = Signature { asyncness: None, unsafety: None, fn_token: tok!(Fn), generics: syn::Generics { lt_token: None, params: Punctuated::new(), gt_token: None, where_clause: None },
    receiver: None, args: Punctuated::new(), ret: None, throws: false, paren_token: dtok!(Paren), throws_tokens: None };
pub(crate) const EFN0: ExternFn = ExternFn { cfg: CFG0, lang: Lang::Cxx, doc: DOC0, attrs: OtherAttrs::none(), visibility: tok!(Pub), name: PAIR0, sig: SIG0, semi_token: tok!(Semi), trusted: true };
pub(crate) const STRUCT0: Struct = Struct { cfg: CFG0, doc: DOC0, derives: Vec::new(), attrs: OtherAttrs::none(), visibility: tok!(Pub), struct_token: tok!(Struct), name: PAIR0,
    generics: LT0, brace_token: dtok!(Brace), fields: Vec::new() };
pub(crate) const ENUM0: Enum = Enum { cfg: CFG0, doc: DOC0, derives: Vec::new(), attrs: OtherAttrs::none(), visibility: tok!(Pub), enum_token: tok!(Enum), name: PAIR0, generics: LT0,
    brace_token: dtok!(Brace), variants: Vec::new(), variants_from_header: false, variants_from_header_attr: None,
    repr: EnumRepr::Native { atom: Atom::U8, repr_type: Type::Void(SP) }, explicit_repr: true };
pub(crate) const ETY0: ExternType = ExternType { cfg: CFG0, lang: Lang::Cxx, doc: DOC0, derives: Vec::new(), attrs: OtherAttrs::none(), visibility: tok!(Pub), type_token: tok!(Type), name: PAIR0,
    generics: LT0, colon_token: None, bounds: Vec::new(), semi_token: tok!(Semi), trusted: true };
pub(crate) const ALIAS0: TypeAlias = TypeAlias { cfg: CFG0, doc: DOC0, derives: Vec::new(), attrs: OtherAttrs::none(), visibility: tok!(Pub), type_token: tok!(Type), name: PAIR0,
    generics: LT0, eq_token: tok!(Eq), ty: syn::Type, semi_token: tok!(Semi) };
pub(crate) const IMPL0: Impl = Impl { cfg: CFG0, impl_token: tok!(Impl), impl_generics: LT0, negative: false, ty: Type::Void(SP), ty_generics: LT0, brace_token: dtok!(Brace), negative_token: None };
pub(crate) const A_STRUCT: Api = Api::Struct(STRUCT0);
pub(crate) const A_ENUM: Api = Api::Enum(ENUM0);
pub(crate) const A_CXXTYPE: Api = Api::CxxType(ETY0);
pub(crate) const A_RUSTTYPE: Api = Api::RustType(ETY0);
pub(crate) const A_CXXFN: Api = Api::CxxFunction(EFN0);
pub(crate) const A_RUSTFN: Api = Api::RustFunction(EFN0);
pub(crate) const A_ALIAS: Api = Api::TypeAlias(ALIAS0);
pub(crate) const A_IMPL: Api = Api::Impl(IMPL0);
/// `bridge!(A_STRUCT => strct(..), A_CXXFN => efn(..))`: a static slice of items.
macro_rules! bridge { ($($v:ident => $x:expr),* $(,)?) => { {
    const N: usize = [$(stringify!($v)),*].len();
    static mut APIS: [core::mem::ManuallyDrop<Api>; N] = [$(core::mem::ManuallyDrop::new(crate::h_build::$v)),*];
    let mut i = 0;
    $( #[allow(unused_unsafe)] unsafe { let x = $x; bridge!(@fill $v APIS[i], x); i += 1; } )*
    #[allow(unused_unsafe)] unsafe { core::slice::from_raw_parts((&raw const APIS) as *const Api, N) }
} };
    (@fill A_STRUCT $a:expr, $x:expr) => { if let Api::Struct(p) = &mut *$a { core::ptr::write(p, $x) } };
    (@fill A_ENUM $a:expr, $x:expr) => { if let Api::Enum(p) = &mut *$a { core::ptr::write(p, $x) } };
    (@fill A_CXXTYPE $a:expr, $x:expr) => { if let Api::CxxType(p) = &mut *$a { core::ptr::write(p, $x) } };
    (@fill A_RUSTTYPE $a:expr, $x:expr) => { if let Api::RustType(p) = &mut *$a { core::ptr::write(p, $x) } };
    (@fill A_CXXFN $a:expr, $x:expr) => { if let Api::CxxFunction(p) = &mut *$a { crate::h_build::fill_fn(p, $x) } };
    (@fill A_RUSTFN $a:expr, $x:expr) => { if let Api::RustFunction(p) = &mut *$a { crate::h_build::fill_fn(p, $x) } };
    (@fill A_ALIAS $a:expr, $x:expr) => { if let Api::TypeAlias(p) = &mut *$a { core::ptr::write(p, $x) } };
    (@fill A_IMPL $a:expr, $x:expr) => { if let Api::Impl(p) = &mut *$a { core::ptr::write(p, $x) } };
}
pub(crate) use bridge;
/// What a function item says; written into its slot field by field.
pub(crate) struct Fun { pub name: &'static str, pub lang: Lang, pub args: Vec<Var>, pub ret: Option<Type>, pub throws: bool, pub unsafety: bool, pub receiver: Option<Receiver> }
pub(crate) fn fun(name: &'static str, lang: Lang) -> Fun { Fun { name, lang, args: Vec::new(), ret: None, throws: false, unsafety: false, receiver: None } }
pub(crate) unsafe fn fill_fn(p: &mut ExternFn, f: Fun) {
    use core::ptr::write;
    write(&mut p.lang, f.lang);
    write(&mut p.name, pair(f.name));
    write(&mut p.sig.args, Punctuated::of(f.args));
    if let Some(t) = f.ret { write(&mut p.sig.ret, Some(t)); } else { write(&mut p.sig.ret, None); }
    write(&mut p.sig.throws, f.throws);
    if f.unsafety { write(&mut p.sig.unsafety, Some(d())); } else { write(&mut p.sig.unsafety, None); }
    if let Some(r) = f.receiver { write(&mut p.sig.receiver, Some(r)); } else { write(&mut p.sig.receiver, None); }
    write(&mut p.sig.generics.params, Punctuated::new());
    write(&mut p.trusted, true);
}

pub(crate) fn sp() -> Span { Span::call_site() }
pub(crate) const fn id(s: &'static str) -> Ident { Ident::of(s) }
pub(crate) fn d<T: Default>() -> T { T::default() }
/// `ForeignName` wraps the C++ name as text; parsing it is not under verification.
pub(crate) fn foreign(s: &'static str) -> ForeignName { unsafe { core::mem::transmute::<String, ForeignName>(String::from(s)) } }
pub(crate) fn pair(s: &'static str) -> Pair { Pair { namespace: Namespace::ROOT, cxx: foreign(s), rust: id(s) } }
pub(crate) fn pair_ns(ns: &[&'static str], cxx: &'static str, rust: &'static str) -> Pair {
    let mut v = Vec::new();
    let mut i = 0;
    while i < ns.len() { v.push(id(ns[i])); i += 1 }
    Pair { namespace: unsafe { core::mem::transmute::<Vec<Ident>, Namespace>(v) }, cxx: foreign(cxx), rust: id(rust) }
}
pub(crate) fn generics(lt: Option<&'static str>) -> Lifetimes {
    match lt { None => Lifetimes { lt_token: None, lifetimes: Punctuated::new(), gt_token: None },
        Some(l) => Lifetimes { lt_token: Some(d()), lifetimes: Punctuated::of(vec![Lifetime::of(l)]), gt_token: Some(d()) } }
}
pub(crate) fn named(s: &'static str) -> Type { Type::Ident(NamedType { rust: id(s), generics: generics(None) }) }
pub(crate) fn ty1(n: &'static str, inner: Type) -> Box<Ty1> { put_ty1(Ty1 { name: id(n), langle: d(), inner, rangle: d() }) }
pub(crate) fn boxed(inner: Type) -> Type { Type::RustBox(ty1("Box", inner)) }
pub(crate) fn rvec(inner: Type) -> Type { Type::RustVec(ty1("Vec", inner)) }
pub(crate) fn uptr(inner: Type) -> Type { Type::UniquePtr(ty1("UniquePtr", inner)) }
pub(crate) fn sptr(inner: Type) -> Type { Type::SharedPtr(ty1("SharedPtr", inner)) }
pub(crate) fn wptr(inner: Type) -> Type { Type::WeakPtr(ty1("WeakPtr", inner)) }
pub(crate) fn cvec(inner: Type) -> Type { Type::CxxVector(ty1("CxxVector", inner)) }
pub(crate) fn mkref(inner: Type, mutable: bool, pinned: bool, lifetime: Option<&'static str>) -> Box<Ref> {
    put_ref(Ref { pinned, ampersand: d(), lifetime: lifetime.map(Lifetime::of), mutable, inner, pin_tokens: None, mutability: if mutable { Some(d()) } else { None } })
}
pub(crate) fn rf(inner: Type, mutable: bool, pinned: bool) -> Type { Type::Ref(mkref(inner, mutable, pinned, None)) }
pub(crate) fn strr() -> Type { Type::Str(mkref(named("str"), false, false, None)) }
pub(crate) fn ptr(inner: Type, mutable: bool) -> Type { Type::Ptr(put_ptr(Ptr { star: d(), mutable, inner, mutability: None, constness: None })) }
pub(crate) fn slice(inner: Type, mutable: bool, lifetime: Option<&'static str>) -> Type {
    Type::SliceRef(put_slice(SliceRef { ampersand: d(), lifetime: lifetime.map(Lifetime::of), mutable, bracket: d(), inner, mutability: None }))
}
pub(crate) fn array(inner: Type, len: usize) -> Type { Type::Array(put_array(Array { bracket: d(), inner, semi_token: d(), len, len_token: LitInt::of("7", "") })) }
pub(crate) fn void() -> Type { Type::Void(sp()) }
pub(crate) fn sig<const N: usize>(args: [Var; N], ret: Option<Type>, throws: bool, unsafety: bool, receiver: Option<Receiver>) -> Signature {
    Signature { asyncness: None, unsafety: if unsafety { Some(d()) } else { None }, fn_token: d(), generics: d(), receiver, args: Punctuated::of(vars(args)), ret, throws,
        paren_token: d(), throws_tokens: None }
}
pub(crate) fn func<const N: usize>(args: [Var; N], ret: Option<Type>) -> Type { Type::Fn(put_sig(sig(args, ret, false, false, None))) }
pub(crate) fn receiver(t: &'static str, mutable: bool, pinned: bool) -> Receiver {
    Receiver { pinned, ampersand: d(), lifetime: None, mutable, var: d(), ty: NamedType { rust: id(t), generics: generics(None) }, colon_token: d(), shorthand: false, pin_tokens: None, mutability: None }
}
pub(crate) fn var(n: &'static str, ty: Type) -> Var {
    Var { cfg: CfgExpr::Unconditional, doc: Doc::new(), attrs: OtherAttrs::none(), visibility: d(), name: pair(n), colon_token: d(), ty }
}
pub(crate) fn strct<const N: usize>(n: &'static str, fields: [Var; N]) -> Struct {
    Struct { cfg: CfgExpr::Unconditional, doc: Doc::new(), derives: Vec::new(), attrs: OtherAttrs::none(), visibility: d(), struct_token: d(), name: pair(n),
        generics: generics(None), brace_token: d(), fields: vars(fields) }
}
pub(crate) fn enm(n: &'static str) -> Enum {
    Enum { cfg: CfgExpr::Unconditional, doc: Doc::new(), derives: Vec::new(), attrs: OtherAttrs::none(), visibility: d(), enum_token: d(), name: pair(n), generics: generics(None),
        brace_token: d(), variants: Vec::new(), variants_from_header: false, variants_from_header_attr: None,
        repr: EnumRepr::Native { atom: Atom::U8, repr_type: named("u8") }, explicit_repr: true }
}
pub(crate) fn ety(n: &'static str, lang: Lang) -> ExternType {
    ExternType { cfg: CfgExpr::Unconditional, lang, doc: Doc::new(), derives: Vec::new(), attrs: OtherAttrs::none(), visibility: d(), type_token: d(), name: pair(n),
        generics: generics(None), colon_token: None, bounds: Vec::new(), semi_token: d(), trusted: true }
}
pub(crate) fn alias(n: &'static str) -> TypeAlias {
    TypeAlias { cfg: CfgExpr::Unconditional, doc: Doc::new(), derives: Vec::new(), attrs: OtherAttrs::none(), visibility: d(), type_token: d(), name: pair(n),
        generics: generics(None), eq_token: d(), ty: syn::Type, semi_token: d() }
}
pub(crate) fn efn(n: &'static str, lang: Lang, sig: Signature) -> ExternFn {
    ExternFn { cfg: CfgExpr::Unconditional, lang, doc: Doc::new(), attrs: OtherAttrs::none(), visibility: d(), name: pair(n), sig, semi_token: d(), trusted: true }
}
pool!(STRUCTS, N_STRUCTS, put_struct, Struct, 4);
pool!(ENUMS, N_ENUMS, put_enum, Enum, 2);
pool!(ALIASES, N_ALIASES, put_alias, TypeAlias, 2);
pool!(ETYS, N_ETYS, put_ety, ExternType, 4);
pool!(EFNS, N_EFNS, put_efn, ExternFn, 2);
pool!(TYPES, N_TYPES, put_type, Type, 16);
pool!(IDENTS, N_IDENTS, put_ident, Ident, 8);
pub(crate) fn keep<T>(b: Box<T>) -> &'static mut T { Box::leak(b) }

/// A world of declared names with no items: filled in by hand per harness.
pub(crate) fn world() -> Types<'static> {
    Types { all: OrderedSet::new(), structs: UnorderedMap::new(), enums: UnorderedMap::new(), cxx: UnorderedSet::new(), rust: UnorderedSet::new(), aliases: UnorderedMap::new(),
        untrusted: UnorderedMap::new(), required_trivial: UnorderedMap::new(), impls: OrderedMap::new(), resolutions: UnorderedMap::new(), struct_improper_ctypes: UnorderedSet::new(),
        toposorted_structs: Vec::new() }
}

/// Contract of `Atom::from` (discharged by g03_atom_*): the built-in type of that exact name, if any.
pub(crate) fn atom_contract(ident: &Ident) -> Option<Atom> {
    use proc_macro2::pack;
    macro_rules! t { ($($s:literal $a:ident)*) => { { $( const $a: u128 = pack($s); )* match ident.key { $( $a => Some(Atom::$a), )* _ => None } } } }
    t!("bool" Bool "c_char" Char "u8" U8 "u16" U16 "u32" U32 "u64" U64 "usize" Usize "i8" I8 "i16" I16 "i32" I32 "i64" I64 "isize" Isize "f32" F32 "f64" F64 "CxxString" CxxString "String" RustString)
}

/// Contract of `Type::eq` (discharged by g06_*) in worlds whose types are all written differently.
pub(crate) fn type_eq_contract(a: &Type, b: &Type) -> bool { core::ptr::eq(a, b) }

/// `hold!(w = expr)`: `w` is a `&'static mut` to a local that is never dropped.
macro_rules! hold { ($w:ident = $e:expr) => { let mut local = core::mem::ManuallyDrop::new($e); let $w = unsafe { &mut *(&raw mut *local) }; } }
pub(crate) use hold;

/// Error text is not built (see `format!` in the overlay) and memory is never given back.
pub(crate) unsafe fn no_dealloc(_: *mut u8, _: core::alloc::Layout) {}
pub(crate) fn no_text(_: &mut String, _: &str) {}
/// `Vec::push` that records no reasons (their text is not under contract here), only lists of references.
#[cfg(kani)]
pub(crate) fn no_push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, t: T) {
    if core::mem::size_of::<T>() == core::mem::size_of::<usize>() {
        let n = v.len();
        v.reserve(1);
        unsafe { core::ptr::write(v.as_mut_ptr().add(n), t); v.set_len(n + 1) }
    } else { core::mem::forget(t) }
}
