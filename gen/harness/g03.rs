//! G03: the bridge rejects exactly the types C++ and Rust cannot pass that way. One world with a name of every
//! category; the oracle is the documented table of supported types, written per wrapper and position.
use crate::h_build::*;
use crate::syntax::report::Errors;
use crate::syntax::types::Types;
use crate::syntax::*;
use proc_macro2::Ident;

/// Leaf names: every built-in type, and one declared name per category.
pub(crate) const LEAVES: [Ident; 25] = [
    id("bool"), id("c_char"), id("u8"), id("u16"), id("u32"), id("u64"), id("usize"), id("i8"), id("i16"), id("i32"), id("i64"), id("isize"), id("f32"), id("f64"),
    id("CxxString"), id("String"), id("S"), id("E"), id("C"), id("R"), id("A"), id("T"), id("D"), id("X"), id("Y"),
];
pub(crate) const BOOL: usize = 0;
pub(crate) const CHAR: usize = 1;
pub(crate) const LAST_PRIMITIVE: usize = 13;
pub(crate) const CXXSTRING: usize = 14;
pub(crate) const RSTRING: usize = 15;
pub(crate) const STRUCT: usize = 16;       // shared struct
pub(crate) const ENUM: usize = 17;         // shared enum
pub(crate) const CXX: usize = 18;          // opaque C++ type
pub(crate) const RUST: usize = 19;         // opaque Rust type
pub(crate) const ALIAS: usize = 20;        // alias of an extern type not used by value
pub(crate) const TRIVIAL: usize = 21;      // alias of an extern type required to be trivial
pub(crate) const EXTERN_STRUCT: usize = 22; // shared struct whose definition is in C++
pub(crate) const UNDECLARED: usize = 23;

pub(crate) fn leaf(i: usize) -> Type { Type::Ident(NamedType { rust: LEAVES[i], generics: LT0 }) }
pub(crate) fn any_leaf() -> usize { let i: usize = kani::any(); kani::assume(i <= UNDECLARED); i }
/// The declarations behind those names, built on first use.
macro_rules! once { ($f:ident, $t:ty, $e:expr) => {
    pub(crate) fn $f() -> &'static $t {
        static mut IT: Option<&'static $t> = None;
        unsafe { if let Some(it) = IT { return it } let it: &'static $t = &*keep($e); IT = Some(it); it }
    }
} }
once!(the_s, Struct, put_struct(strct("S", [var("a", named("u8"))])));
once!(the_d, Struct, put_struct(strct("D", [var("a", named("u8"))])));
once!(the_e, Enum, put_enum(enm("E")));
once!(the_a, TypeAlias, put_alias(alias("A")));
once!(the_t, TypeAlias, put_alias(alias("T")));
once!(the_c, Ident, put_ident(id("C")));
once!(the_r, Ident, put_ident(id("R")));
pub(crate) fn declare(w: &mut Types<'static>) {
    w.structs.insert(&the_s().name.rust, the_s());
    w.structs.insert(&the_d().name.rust, the_d());
    w.enums.insert(&the_e().name.rust, the_e());
    w.cxx.insert(the_c());
    w.cxx.insert(&the_a().name.rust);
    w.cxx.insert(&the_t().name.rust);
    w.cxx.insert(&the_d().name.rust);
    w.rust.insert(the_r());
    w.aliases.insert(&the_a().name.rust, the_a());
    w.aliases.insert(&the_t().name.rust, the_t());
    w.required_trivial.insert(&the_t().name.rust, Vec::new());
}
/// How many errors the checker reports for a bridge that uses just this type.
pub(crate) fn errors(t: Type) -> usize {
    hold!(w = world());
    declare(w);
    w.all.insert(&*keep(put_type(t)));
    hold!(e = Errors::new());
    check::typecheck(e, &[], w, check::Generator::Macro);
    e.count
}

// ---- the documented table ----
fn primitive(i: usize) -> bool { i <= LAST_PRIMITIVE }
fn shared(i: usize) -> bool { i == STRUCT || i == ENUM || i == EXTERN_STRUCT }
/// No value of the type exists outside its own language, so it is only usable behind an indirection.
pub(crate) fn by_reference_only(i: usize) -> bool { i == CXXSTRING || i == CXX || i == RUST || i == ALIAS }
fn box_target(i: usize) -> bool { !primitive(i) && i != CXXSTRING && i != RSTRING && i != CXX }
fn vec_element(i: usize) -> bool { i != CXXSTRING && i != CXX }
fn unique_target(i: usize) -> bool { !primitive(i) && i != RSTRING && i != RUST }
fn shared_target(i: usize) -> bool { i != CHAR && i != RSTRING && i != RUST }
fn vector_element(i: usize) -> bool { i != BOOL && i != CHAR && i != RSTRING && i != RUST }
fn unpinned_mut(i: usize) -> bool { i != CXXSTRING && i != CXX && i != ALIAS }
fn slice_element(i: usize) -> bool { !by_reference_only(i) || i == RUST || i == ALIAS }
fn array_element(i: usize) -> bool { !by_reference_only(i) }

macro_rules! table { ($($name:ident($i:ident) $form:expr, $legal:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(std::alloc::dealloc, crate::h_build::no_dealloc)]
    #[kani::stub(std::string::String::push_str, crate::h_build::no_text)]
    fn $name() {
        let $i = any_leaf();
        let legal: bool = $legal;
        let n = errors($form);
        kani::cover!(n == 0, "accepted");
        kani::cover!(n != 0, "rejected");
        kani::assert((n == 0) == legal, concat!(stringify!($name), ": accepted exactly when documented as supported"));
    }
)* } }
table! {
    g03_name(i) leaf(i), i != UNDECLARED;
    g03_box(i) boxed(leaf(i)), box_target(i);
    g03_vec(i) rvec(leaf(i)), vec_element(i);
    g03_unique_ptr(i) uptr(leaf(i)), unique_target(i);
    g03_shared_ptr(i) sptr(leaf(i)), shared_target(i);
    g03_weak_ptr(i) wptr(leaf(i)), shared_target(i);
    g03_cxx_vector(i) cvec(leaf(i)), vector_element(i);
    g03_mut_ref(i) rf(leaf(i), true, false), unpinned_mut(i);
    g03_slice(i) slice(leaf(i), kani::any(), None), slice_element(i);
    g03_array(i) array(leaf(i), kani::any()), array_element(i);
}

// ---- wrappers around types that are not plain names ----
#[derive(Copy, Clone, PartialEq)]
enum K { BoxOf, VecOf, UniquePtr, SharedPtr, WeakPtr, CxxVector, Ref, Ptr, Str, Slice, Fun, Void, Arr }
pub(crate) fn build(k: K) -> Type {
    match k {
        K::BoxOf => boxed(named("S")), K::VecOf => rvec(named("u8")), K::UniquePtr => uptr(named("S")), K::SharedPtr => sptr(named("S")), K::WeakPtr => wptr(named("S")),
        K::CxxVector => cvec(named("S")), K::Ref => rf(named("S"), false, false), K::Ptr => ptr(named("S"), false), K::Str => strr(), K::Slice => slice(named("S"), false, None),
        K::Fun => func([], None), K::Void => void(), K::Arr => array(named("S"), 4),
    }
}
/// No value of the type can be passed around.
fn unsized_kind(k: K) -> bool { matches!(k, K::CxxVector | K::Fun | K::Void) }
/// In a bridge with these forms each unsupported one is reported once, and nothing else.
macro_rules! nested { ($($name:ident($k:ident in $($i:ident)*, $inner:ident) $form:expr, $legal:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    fn $name() {
        hold!(w = world());
        declare(w);
        let mut n = 0;
        unsafe { crate::mock::hash_set::DISTINCT = true }
        $({ let $k = K::$i; let legal: bool = $legal; let $inner = build($k); w.all.insert(&*keep(put_type($form))); if !legal { n += 1; } })*
        hold!(e = Errors::new());
        check::typecheck(e, &[], w, check::Generator::Macro);
        kani::assert(e.count == n, concat!(stringify!($name), ": exactly the unsupported forms are reported, once each"));
    }
)* } }
nested! {
    g03_nested_box_1(k in UniquePtr CxxVector Str Ptr, x) boxed(x), false;
    g03_nested_box_2(k in Ref Slice Fun Arr, x) boxed(x), false;
    g03_nested_vec_1(k in UniquePtr SharedPtr CxxVector Str, x) rvec(x), k == K::Str;
    g03_nested_vec_2(k in Ref Slice Fun Arr, x) rvec(x), k == K::Str;
    g03_nested_vec_3(k in BoxOf VecOf Ptr Void, x) rvec(x), k == K::Str;
    g03_nested_unique_ptr_1(k in UniquePtr SharedPtr CxxVector Str, x) uptr(x), k == K::CxxVector;
    g03_nested_unique_ptr_2(k in Ref Slice Fun Arr, x) uptr(x), k == K::CxxVector;
    g03_nested_unique_ptr_3(k in BoxOf VecOf Ptr Void, x) uptr(x), k == K::CxxVector;
    g03_nested_shared_ptr_1(k in UniquePtr CxxVector Str Ptr, x) sptr(x), false;
    g03_nested_shared_ptr_2(k in Ref Slice Fun Arr, x) sptr(x), false;
    g03_nested_weak_ptr_1(k in SharedPtr CxxVector Str Arr, x) wptr(x), false;
    g03_nested_cxx_vector_1(k in UniquePtr SharedPtr CxxVector Str, x) cvec(x), false;
    g03_nested_cxx_vector_2(k in Ref Slice Fun Arr, x) cvec(x), false;
    g03_nested_ref_1(k in UniquePtr SharedPtr CxxVector Str, x) rf(x, false, false), !matches!(k, K::Ref | K::Fun | K::Void);
    g03_nested_ref_2(k in Ref Slice Fun Void, x) rf(x, false, false), !matches!(k, K::Ref | K::Fun | K::Void);
    g03_nested_ref_3(k in BoxOf VecOf Ptr, x) rf(x, false, false), !matches!(k, K::Ref | K::Fun | K::Void);
    g03_nested_mut_ref_1(k in UniquePtr SharedPtr CxxVector Str, x) rf(x, true, false), !matches!(k, K::Ref | K::Fun | K::Void | K::CxxVector);
    g03_nested_mut_ref_2(k in Ref Slice Fun Void, x) rf(x, true, false), !matches!(k, K::Ref | K::Fun | K::Void | K::CxxVector);
    g03_nested_mut_ref_3(k in BoxOf VecOf Ptr, x) rf(x, true, false), !matches!(k, K::Ref | K::Fun | K::Void | K::CxxVector);
    g03_nested_slice_1(k in UniquePtr SharedPtr CxxVector Str, x) slice(x, kani::any(), None), !unsized_kind(k);
    g03_nested_slice_2(k in Ref Slice Fun Void, x) slice(x, kani::any(), None), !unsized_kind(k);
    g03_nested_slice_3(k in BoxOf VecOf Ptr Arr, x) slice(x, kani::any(), None), !unsized_kind(k);
    g03_nested_array_1(k in UniquePtr SharedPtr CxxVector Str, x) array(x, 4), !unsized_kind(k);
    g03_nested_array_2(k in Ref Slice Fun Void, x) array(x, 4), !unsized_kind(k);
    g03_nested_array_3(k in BoxOf VecOf Ptr Arr, x) array(x, 4), !unsized_kind(k);
}

// ---- positions in items ----
/// Assumed of `ident::check_all`: the names in these bridges are not reserved by cxx.
fn names_allowed(_: &mut check::Check, _: &[Api]) {}
/// How many errors the checker reports for a bridge of these items.
pub(crate) fn item_errors(apis: &'static [Api]) -> usize {
    hold!(w = world());
    declare(w);
    hold!(e = Errors::new());
    check::typecheck(e, apis, w, check::Generator::Macro);
    e.count
}
macro_rules! items { ($($name:ident($($v:ident = $any:expr),*) $api:ident => $item:expr, $legal:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(crate::syntax::ident::check_all, names_allowed)]
    fn $name() {
        $(let $v = $any;)*
        let legal: bool = $legal;
        let n = item_errors(bridge!($api => $item));
        kani::cover!(n == 0, "accepted");
        kani::cover!(n != 0, "rejected");
        kani::assert((n == 0) == legal, concat!(stringify!($name), ": accepted exactly when documented as supported"));
    }
)* } }
items! {
    g03_field_by_value(i = any_leaf()) A_STRUCT => strct("Z", [var("a", named("u8")), var("b", leaf(i))]), !by_reference_only(i);
    g03_cxx_argument_by_value(i = any_leaf()) A_CXXFN => Fun { args: vars([var("a", named("u8")), var("b", leaf(i))]), throws: kani::any(), unsafety: kani::any(), ..fun("f", Lang::Cxx) }, !by_reference_only(i);
    g03_cxx_return_by_value(i = any_leaf()) A_CXXFN => Fun { ret: Some(leaf(i)), throws: kani::any(), unsafety: kani::any(), ..fun("f", Lang::Cxx) }, !by_reference_only(i);
    g03_rust_return_by_value(i = any_leaf()) A_RUSTFN => Fun { ret: Some(leaf(i)), throws: kani::any(), unsafety: kani::any(), ..fun("f", Lang::Rust) }, !by_reference_only(i);
    g03_array_field_by_value(i = any_leaf()) A_STRUCT => strct("Z", [var("a", array(array(leaf(i), 2), 3))]), !by_reference_only(i);
    g03_cxx_receiver(i = any_leaf(), mutable = kani::any(), pinned = kani::any()) A_CXXFN => Fun { receiver: Some(receiver_of(i, mutable, pinned)), ..fun("f", Lang::Cxx) }, receiver_allowed(i, mutable, pinned);
    g03_rust_receiver(i = any_leaf(), mutable = kani::any(), pinned = kani::any()) A_RUSTFN => Fun { receiver: Some(receiver_of(i, mutable, pinned)), ..fun("f", Lang::Rust) }, receiver_allowed(i, mutable, pinned);
    g03_pointer_argument(i = any_leaf(), unsafety = kani::any()) A_CXXFN => Fun { args: vars([var("a", ptr(leaf(i), kani::any()))]), unsafety, ..fun("f", Lang::Cxx) }, unsafety;
}
fn receiver_of(i: usize, mutable: bool, pinned: bool) -> Receiver {
    Receiver { ty: NamedType { rust: LEAVES[i], generics: LT0 }, ..receiver("S", mutable, pinned) }
}
/// Methods exist on shared structs and extern types; `&mut self` of an opaque C++ type is pinned.
fn receiver_allowed(i: usize, mutable: bool, pinned: bool) -> bool {
    match i { STRUCT | EXTERN_STRUCT | RUST | TRIVIAL => true, CXX | ALIAS => !mutable || pinned, _ => false }
}

/// In a function or struct with values of these forms each unsupported one is reported once, and nothing else.
macro_rules! values { ($($name:ident $api:ident $a:ident $b:ident $c:ident => |$args:ident| $item:expr, $n:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(crate::syntax::ident::check_all, names_allowed)]
    fn $name() {
        let n = item_errors(bridge!($api => { let $args = [var("a", build(K::$a)), var("b", build(K::$b)), var("c", build(K::$c))]; $item }));
        kani::assert(n == $n, concat!(stringify!($name), ": exactly the values that cannot be passed are reported, once each"));
    }
)* } }
values! {
    g03_values_field_1 A_STRUCT BoxOf VecOf UniquePtr => |v| strct("Z", v), 0;
    g03_values_field_3 A_STRUCT Str Slice Ptr => |v| strct("Z", v), 0;
    g03_values_field_4 A_STRUCT CxxVector Fun Void => |v| strct("Z", v), 3;
    g03_values_cxx_argument_4 A_CXXFN CxxVector Fun Void => |v| Fun { args: vars(v), ..fun("f", Lang::Cxx) }, 2;
    g03_values_rust_argument_4 A_RUSTFN CxxVector Fun Void => |v| Fun { args: vars(v), ..fun("f", Lang::Rust) }, 3;
}

/// The contract of `Atom::from` used above: the built-in type of that exact name, and none for any other name.
macro_rules! atoms { ($($name:ident $lo:literal $hi:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    fn $name() {
        let mut i = $lo;
        while i < $hi { let got = crate::syntax::atom::Atom::from(&LEAVES[i]); let want = atom_contract(&LEAVES[i]); kani::assert(got == want, concat!(stringify!($name), ": a name denotes the built-in type of exactly that name")); i += 1; }
    }
)* } }
atoms! { g03_atom_1 0 13; g03_atom_2 13 25; }
