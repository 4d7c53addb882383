//! G04: by-value use of an extern C++ type is always checked to be trivial. The oracle lists, per item and position,
//! which reasons must be recorded for which name; a name of every category stands in each position.
use crate::h_build::*;
use crate::h_g03::{any_leaf, declare, leaf, ALIAS, CXX, LEAVES, TRIVIAL};
use crate::syntax::trivial::{required_trivial_reasons, TrivialReason};
use crate::syntax::types::Types;
use crate::syntax::*;
use proc_macro2::Ident;

/// Extern C++ types, which are the ones that have to be checked: not structs or enums also declared in C++.
fn extern_type(i: usize) -> bool { i == CXX || i == ALIAS || i == TRIVIAL }
type Found = &'static crate::syntax::map::UnorderedMap<&'static Ident, Vec<TrivialReason<'static>>>;
macro_rules! reasons { ($r:ident = $w:expr, $apis:expr) => { hold!($r = required_trivial_reasons($apis, &$w.all, &$w.structs, &$w.enums, &$w.cxx)); } }
/// Whether the name `i` must be trivial.
fn found(r: Found, i: usize) -> bool { r.contains_key(&LEAVES[i]) }

/// `need`: whether the position demands the type be trivial.
macro_rules! types { ($($name:ident($i:ident) $form:expr, $need:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(std::vec::Vec::push, crate::h_build::no_push)]
    fn $name() {
        let $i = any_leaf();
        hold!(w = world());
        declare(w);
        w.all.insert(&*keep(put_type($form)));
        reasons!(r = w, &[]);
        let n = found(r, $i);
        let need: bool = $need;
        kani::cover!(n, "demanded");
        kani::cover!(!n, "not demanded");
        kani::assert(n == (need && extern_type($i)), concat!(stringify!($name), ": triviality is demanded exactly when the use needs it"));
    }
)* } }
types! {
    g04_box(i) boxed(leaf(i)), true;
    g04_vec(i) rvec(leaf(i)), true;
    g04_slice(i) slice(leaf(i), false, None), true;
    g04_mut_slice(i) slice(leaf(i), true, None), true;
}
macro_rules! never { ($($name:ident($i:ident) $($form:expr),*;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(std::vec::Vec::push, crate::h_build::no_push)]
    fn $name() {
        let $i = any_leaf();
        hold!(w = world());
        declare(w);
        unsafe { crate::mock::hash_set::DISTINCT = true }
        $(w.all.insert(&*keep(put_type($form)));)*
        unsafe { crate::mock::hash_set::DISTINCT = false }
        reasons!(r = w, &[]);
        let n = found(r, $i);
        kani::assert(!n, concat!(stringify!($name), ": never demanded for use behind this"));
    }
)* } }
never! {
    g04_owning_pointer(i) uptr(leaf(i)), sptr(leaf(i)), wptr(leaf(i)), cvec(leaf(i));
    g04_reference(i) rf(leaf(i), kani::any(), kani::any()), ptr(leaf(i), kani::any()), leaf(i);
}

// ---- positions in items ----
macro_rules! items { ($($name:ident($i:ident = $first:expr $(, $v:ident = $any:expr)*) $api:ident => $item:expr, $n:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(std::vec::Vec::push, crate::h_build::no_push)]
    fn $name() {
        let $i = $first;
        $(let $v = $any;)*
        let want: bool = $n;
        let apis = bridge!($api => $item);
        hold!(w = world());
        declare(w);
        reasons!(all = w, apis);
        let n = found(all, $i);
        kani::cover!(n, "demanded");
        kani::cover!(!n, "not demanded");
        kani::assert(n == (want && extern_type($i)), concat!(stringify!($name), ": triviality is demanded exactly when the use needs it"));
    }
)* } }
items! {
    g04_field(i = any_leaf()) A_STRUCT => strct("Z", [var("a", named("u8")), var("b", leaf(i))]), true;
    g04_argument(i = any_leaf()) A_CXXFN => Fun { args: vars([var("a", named("u8")), var("b", leaf(i))]), ..fun("f", Lang::Cxx) }, true;
    g04_rust_argument(i = any_leaf()) A_RUSTFN => Fun { args: vars([var("a", leaf(i)), var("b", named("u8"))]), ..fun("f", Lang::Rust) }, true;
    g04_return(i = any_leaf()) A_CXXFN => Fun { ret: Some(leaf(i)), throws: kani::any(), ..fun("f", Lang::Cxx) }, true;
    g04_rust_return(i = any_leaf()) A_RUSTFN => Fun { ret: Some(leaf(i)), throws: kani::any(), ..fun("f", Lang::Rust) }, true;
    g04_argument_ref(i = any_leaf(), mutable = kani::any::<bool>(), pinned = kani::any::<bool>()) A_CXXFN => Fun { args: vars([var("a", rf(leaf(i), mutable, pinned))]), ..fun("f", Lang::Cxx) }, mutable && !pinned;
    g04_return_ref(i = any_leaf(), mutable = kani::any::<bool>(), pinned = kani::any::<bool>()) A_RUSTFN => Fun { ret: Some(rf(leaf(i), mutable, pinned)), ..fun("f", Lang::Rust) }, mutable && !pinned;
    g04_receiver(i = any_leaf(), mutable = kani::any::<bool>(), pinned = kani::any::<bool>()) A_CXXFN => Fun { receiver: Some(Receiver { ty: NamedType { rust: LEAVES[i], generics: LT0 }, ..receiver("S", mutable, pinned) }), ..fun("f", Lang::Cxx) }, mutable && !pinned;
    g04_method_argument(i = any_leaf()) A_CXXFN => Fun { receiver: Some(receiver("S", kani::any(), kani::any())), args: vars([var("a", leaf(i))]), throws: kani::any(), ..fun("f", Lang::Cxx) }, true;
    g04_method_argument_ref(i = any_leaf(), mutable = kani::any::<bool>(), pinned = kani::any::<bool>()) A_RUSTFN => Fun { receiver: Some(receiver("S", kani::any(), kani::any())), args: vars([var("a", rf(leaf(i), mutable, pinned))]), throws: kani::any(), ..fun("f", Lang::Rust) }, mutable && !pinned;
    g04_method_return(i = any_leaf()) A_RUSTFN => Fun { receiver: Some(receiver("S", kani::any(), kani::any())), ret: Some(leaf(i)), throws: kani::any(), ..fun("f", Lang::Rust) }, true;
    g04_method_return_ref(i = any_leaf(), mutable = kani::any::<bool>(), pinned = kani::any::<bool>()) A_CXXFN => Fun { receiver: Some(receiver("S", kani::any(), kani::any())), ret: Some(rf(leaf(i), mutable, pinned)), throws: kani::any(), ..fun("f", Lang::Cxx) }, mutable && !pinned;
}
