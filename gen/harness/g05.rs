//! G05: which values travel by hidden pointer. A value travels directly only when its representation is guaranteed
//! plain in both languages; the two halves of the generator decide alike.
use crate::h_build::*;
use crate::h_g03::*;
use crate::syntax::types::Types;
use crate::syntax::*;

/// Names whose values are plain data in both languages. Shared structs are judged by their fields.
fn plain(i: usize) -> bool { i <= LAST_PRIMITIVE || i == ENUM }
fn is_struct(i: usize) -> bool { i == STRUCT || i == EXTERN_STRUCT }

fn any_value() -> usize { let i = any_leaf(); kani::assume(i != UNDECLARED && i != CXXSTRING); i }
/// Every name in turn.
macro_rules! each_value { ($i:ident $body:block) => { let mut $i = 0; while $i <= UNDECLARED { if $i != UNDECLARED && $i != CXXSTRING { $body } $i += 1; } } }

#[kani::proof]
#[kani::unwind(30)]
#[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
fn g05_name() {
    hold!(w = world());
    declare(w);
    each_value!(i {
        hold!(t = leaf(i));
        let hidden = w.needs_indirect_abi(t);
        kani::assert(is_struct(i) || hidden == !plain(i), "g05_name: built-in numbers and shared enums travel directly, strings and extern types by hidden pointer");
    });
}

/// The forms that are one machine word or a documented pair of words travel directly, all others by hidden pointer.
macro_rules! forms { ($($name:ident($i:ident) $form:expr, $hidden:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    fn $name() {
        let $i = any_leaf();
        hold!(w = world());
        declare(w);
        hold!(t = $form);
        kani::assert(w.needs_indirect_abi(t) == $hidden, concat!(stringify!($name), ": travels by hidden pointer exactly when not plain data in both languages"));
    }
)* } }
forms! {
    g05_box(i) boxed(leaf(i)), false;
    g05_unique_ptr(i) uptr(leaf(i)), false;
    g05_ref(i) rf(leaf(i), kani::any(), kani::any()), false;
    g05_ptr(i) ptr(leaf(i), kani::any()), false;
    g05_slice(i) slice(leaf(i), kani::any(), None), false;
    g05_str(i) strr(), false;
    g05_fn(i) func([], None), false;
    g05_vec(i) rvec(leaf(i)), true;
    g05_shared_ptr(i) sptr(leaf(i)), true;
    g05_weak_ptr(i) wptr(leaf(i)), true;
    g05_cxx_vector(i) cvec(leaf(i)), true;
    g05_array(i) array(leaf(i), kani::any()), true;
}

/// A struct the Rust compiler considers unfit for a C signature travels by hidden pointer even if plain.
#[kani::proof]
#[kani::unwind(20)]
#[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
fn g05_improper_struct() {
    hold!(w = world());
    w.enums.insert(&the_e().name.rust, the_e());
    let z: &'static Struct = &*keep(put_struct(strct("Z", [var("e", named("E"))])));
    w.structs.insert(&z.name.rust, z);
    let improper: bool = kani::any();
    if improper { w.struct_improper_ctypes.insert(&z.name.rust); }
    hold!(t = named("Z"));
    kani::assert(w.needs_indirect_abi(t) == improper, "g05_improper_struct: hidden exactly when unfit");
}

// BEGIN EXTRACTED
/// Contract of `is_guaranteed_pod`, assumed of its recursive calls (on the fields and elements, which are smaller):
/// plain data in both languages. Whether the structs S and D are is left open.
static mut STRUCT_PLAIN: bool = false;
fn plain_contract<'a>(_: &Types<'a>, t: &Type) -> bool where 'a: 'a {
    match t {
        Type::Ident(n) => match atom_contract(&n.rust) { Some(a) => !matches!(a, atom::Atom::RustString | atom::Atom::CxxString), None => n.rust == LEAVES[ENUM] || unsafe { STRUCT_PLAIN && (n.rust == LEAVES[STRUCT] || n.rust == LEAVES[EXTERN_STRUCT]) } },
        Type::Ref(_) | Type::Ptr(_) | Type::Str(_) | Type::SliceRef(_) | Type::Fn(_) => true,
        Type::Array(a) => match &a.inner { Type::Ident(n) => match atom_contract(&n.rust) { Some(a) => !matches!(a, atom::Atom::RustString | atom::Atom::CxxString), None => n.rust == LEAVES[ENUM] }, _ => false },
        _ => false,
    }
}
/// Whether a value with these fields is judged plain by the body of `is_guaranteed_pod`.
macro_rules! fields { ($($name:ident($i:ident) [$($form:expr),*], $plain:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
    #[kani::stub(crate::syntax::types::Types::is_guaranteed_pod, plain_contract)]
    fn $name() {
        let $i = any_value();
        unsafe { STRUCT_PLAIN = kani::any(); }
        hold!(w = world());
        hold!(fs = [$(var("f", $form)),*]);
        hold!(z = STRUCT0);
        unsafe {
            core::ptr::write(&mut z.name, pair("Z"));
            core::ptr::write(&mut z.fields, Vec::from_raw_parts(fs.as_mut_ptr(), fs.len(), fs.len()));
        }
        let z: &'static Struct = z;
        w.structs.insert(&z.name.rust, z);
        w.enums.insert(&the_e().name.rust, the_e());
        hold!(t = named("Z"));
        let plain: bool = $plain;
        kani::assert(plain || !w.is_guaranteed_pod_body(t), concat!(stringify!($name), ": a struct with a field that is not plain data is not plain data"));
    }
)* } }
fields! {
    g05_field_name(i) [leaf(i)], plain(i) || is_struct(i) && unsafe { STRUCT_PLAIN };
    g05_second_field_name(i) [named("E"), leaf(i)], plain(i) || is_struct(i) && unsafe { STRUCT_PLAIN };
    g05_field_array(i) [array(leaf(i), 2)], plain(i);
    g05_field_box(i) [boxed(leaf(i))], false;
    g05_field_vec(i) [rvec(leaf(i)), named("E")], false;
    g05_field_unique_ptr(i) [uptr(leaf(i))], false;
    g05_field_shared_ptr(i) [sptr(leaf(i)), named("E")], false;
    g05_field_weak_ptr(i) [wptr(leaf(i))], false;
}
/// An array is as plain as its elements.
#[kani::proof]
#[kani::unwind(20)]
#[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
#[kani::stub(crate::syntax::types::Types::is_guaranteed_pod, plain_contract)]
fn g05_array_element() {
    let i = any_value();
    hold!(w = world());
    declare(w);
    hold!(t = array(leaf(i), 3));
    hold!(e = leaf(i));
    kani::assert(w.is_guaranteed_pod_body(t) == plain_contract(w, e), "g05_array_element: an array is as plain as its elements");
}
/// Both halves decide alike about results: hidden when the function may throw, or when the type is.
#[kani::proof]
#[kani::unwind(30)]
#[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
fn g05_return() {
    hold!(w = world());
    declare(w);
    hold!(s = SIG0);
    s.throws = kani::any();
    each_value!(i {
        unsafe { core::ptr::write(&mut s.ret, Some(leaf(i))); }
        let cpp = crate::ext_cpp::indirect_return(s, w);
        let rust = crate::ext_rust::indirect_return(s, w);
        kani::assert(cpp == rust, "g05_return: the C++ and Rust halves agree");
        kani::assert(cpp == (s.throws || w.needs_indirect_abi(s.ret.as_ref().unwrap())), "g05_return: a result travels by hidden pointer when it is not plain or the function can fail");
    });
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::stub(crate::syntax::atom::Atom::from, crate::h_build::atom_contract)]
fn g05_return_nothing() {
    hold!(w = world());
    hold!(s = SIG0);
    s.throws = kani::any();
    kani::assert(!crate::ext_cpp::indirect_return(s, w) && !crate::ext_rust::indirect_return(s, w), "g05_return_nothing: nothing is returned through a pointer");
}
// END EXTRACTED
