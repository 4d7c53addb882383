//! G07: shared structs are emitted after every struct they contain. `visit` is verified against its contract with its
//! recursive calls (on the structs a struct contains) assumed to meet it; `sort` against the contract of `visit`.
use crate::h_build::*;
use crate::syntax::map::UnorderedMap as Map;
use crate::syntax::report::Errors;
use crate::syntax::toposort::{self, Mark};
use crate::syntax::types::Types;
use crate::syntax::*;
use proc_macro2::Ident;

/// Z is the struct being visited; A, B and Z are shared structs, E an enum and u8 a number.
const NAMES: [Ident; 5] = [id("A"), id("B"), id("Z"), id("E"), id("u8")];
const A: usize = 0;
const B: usize = 1;
const Z: usize = 2;
const E: usize = 3;
const U: usize = 4;
const UNMARKED: u8 = 0;
const VISITING: u8 = 1;
const VISITED: u8 = 2;
static mut OTHER: *const Struct = core::ptr::null();

fn mark(marks: &Map<*const Struct, Mark>, s: *const Struct) -> u8 {
    match marks.get(&s) { None => UNMARKED, Some(Mark::Visiting) => VISITING, Some(Mark::Visited) => VISITED }
}
fn times(sorted: &Vec<&Struct>, s: *const Struct) -> usize {
    let (mut i, mut n) = (0, 0);
    while i < sorted.len() { if core::ptr::eq(sorted[i], s) { n += 1 } i += 1; }
    n
}
/// Contract of `visit`: a struct being visited is an error of the caller, one already emitted needs nothing; any other
/// is emitted, once, after what it contains, which may emit a further struct before it. A failure is reported.
fn visit_contract<'a>(cx: &mut Errors, s: &'a Struct, sorted: &mut Vec<&'a Struct>, marks: &mut Map<*const Struct, Mark>, _: &Types<'a>) -> Result<(), ()> {
    match mark(marks, s) { VISITING => return Err(()), VISITED => return Ok(()), _ => {} }
    let other = unsafe { OTHER };
    if !other.is_null() && !core::ptr::eq(other, s) && mark(marks, other) == UNMARKED {
        marks.insert(other, Mark::Visited);
        sorted.push(unsafe { &*other });
    }
    marks.insert(s, Mark::Visited);
    sorted.push(s);
    if kani::any() { cx.count += 1; Err(()) } else { Ok(()) }
}
fn leaf(i: usize) -> Type { Type::Ident(NamedType { rust: NAMES[i], generics: LT0 }) }
fn leaf_lt(i: usize) -> Type { Type::Ident(NamedType { rust: NAMES[i], generics: generics(Some("a")) }) }
/// A struct of that name with no fields of interest, in place.
macro_rules! blank { ($s:ident = $n:literal) => { hold!($s = STRUCT0); unsafe { core::ptr::write(&mut $s.name, pair($n)); } let $s: &'static Struct = $s; } }

// BEGIN EXTRACTED
macro_rules! visits { ($($name:ident [$($form:expr),*] contains [$($c:expr),*];)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::toposort::visit, visit_contract)]
    fn $name() {
        blank!(a = "A");
        blank!(b = "B");
        hold!(fs = [$(var("f", $form)),*]);
        hold!(z = STRUCT0);
        unsafe {
            core::ptr::write(&mut z.name, pair("Z"));
            core::ptr::write(&mut z.fields, Vec::from_raw_parts(fs.as_mut_ptr(), fs.len(), fs.len()));
        }
        let z: &'static Struct = z;
        hold!(w = world());
        w.structs.insert(&a.name.rust, a);
        w.structs.insert(&b.name.rust, b);
        w.structs.insert(&z.name.rust, z);
        let all: [*const Struct; 3] = [a, b, z];
        // every state the two other structs can be in; fewer where the struct contains neither
        let contained: [usize; 2] = { let mut c = [4, 4]; let mut _k = 0; $( c[_k] = $c; _k += 1; )* c };
        let step = if contained[0] < 2 || contained[1] < 2 { 1 } else { 4 };
        let mut round = 0u8;
        while round < 18 {
            unsafe { OTHER = if round < 9 { b } else { core::ptr::null() }; }
            if round == 9 || round == 12 { w.cxx.insert(&a.name.rust); w.cxx.insert(&b.name.rust); w.cxx.insert(&z.name.rust); }
            hold!(marks = Map::<*const Struct, Mark>::new());
            hold!(sorted = Vec::<&'static Struct>::with_capacity(4));
            let before: [u8; 2] = [round % 9 / 3, round % 3];
            if before[0] == VISITING { marks.insert(a, Mark::Visiting); }
            if before[0] == VISITED { marks.insert(a, Mark::Visited); sorted.push(a); }
            if before[1] == VISITING { marks.insert(b, Mark::Visiting); }
            if before[1] == VISITED { marks.insert(b, Mark::Visited); sorted.push(b); }
            let n = sorted.len();
            hold!(cx = Errors::new());
            let r = crate::ext_visit::visit_body(cx, z, sorted, marks, w);
            let mut cyclic = false;
            let mut k = 0;
            while k < 2 {
                let c = contained[k];
                if c == Z || c < 2 && before[c] == VISITING { cyclic = true; }
                if c < 2 && before[c] != VISITING {
                    kani::assert(mark(marks, all[c]) == VISITED && times(sorted, all[c]) == 1, concat!(stringify!($name), ": what a struct contains is emitted, once"));
                }
                k += 1;
            }
            kani::assert(mark(marks, z) == VISITED && times(sorted, z) == 1 && core::ptr::eq(sorted[sorted.len() - 1], z), concat!(stringify!($name), ": a struct is emitted once, after everything it contains"));
            let mut k = 0;
            while k < 2 {
                kani::assert((before[k] == VISITING) == (mark(marks, all[k]) == VISITING), concat!(stringify!($name), ": structs still being visited stay so"));
                kani::assert(times(sorted, all[k]) == (mark(marks, all[k]) == VISITED) as usize, concat!(stringify!($name), ": emitted at most once"));
                k += 1;
            }
            if cyclic { kani::assert(r.is_err(), concat!(stringify!($name), ": a struct containing itself by value is rejected")); }
            kani::assert(r.is_err() == (cx.count > 0), concat!(stringify!($name), ": a failure is reported, and nothing else"));
            if contained[0] > 2 && contained[1] > 2 {
                kani::assert(r.is_ok() && sorted.len() == n + 1, concat!(stringify!($name), ": what is not contained by value imposes no order and is no cycle"));
            }
            round += step;
        }
    }
)* } }
visits! {
    g07_plain_a [leaf(A)] contains [A];
    g07_array_a [array(leaf(A), 3)] contains [A];
    g07_array_of_array_a [array(array(leaf(A), 2), 3)] contains [A];
    g07_plain_b [leaf(B)] contains [B];
    g07_array_b [array(leaf(B), 3)] contains [B];
    g07_array_of_array_b [array(array(leaf(B), 2), 3)] contains [B];
    g07_plain_z [leaf(Z)] contains [Z];
    g07_array_z [array(leaf(Z), 3)] contains [Z];
    g07_array_of_array_z [array(array(leaf(Z), 2), 3)] contains [Z];
    g07_plain_e [leaf(E)] contains [E];
    g07_array_e [array(leaf(E), 3)] contains [E];
    g07_array_of_array_e [array(array(leaf(E), 2), 3)] contains [E];
    g07_plain_u [leaf(U)] contains [U];
    g07_array_u [array(leaf(U), 3)] contains [U];
    g07_array_of_array_u [array(array(leaf(U), 2), 3)] contains [U];
    g07_two_a_b [leaf(A), leaf(B)] contains [A, B];
    g07_two_b_a [leaf(B), leaf(A)] contains [B, A];
    g07_two_a_a [leaf(A), leaf(A)] contains [A, A];
    g07_two_a_z [leaf(A), leaf(Z)] contains [A, Z];
    g07_two_z_a [leaf(Z), leaf(A)] contains [Z, A];
    g07_two_u_a [leaf(U), leaf(A)] contains [U, A];
    g07_two_e_b [leaf(E), leaf(B)] contains [E, B];
    g07_array_then_plain [array(leaf(B), 3), leaf(A)] contains [B, A];
    g07_box_a [boxed(leaf(A))] contains [];
    g07_box_z [boxed(leaf(Z))] contains [];
    g07_vec_a [rvec(leaf(A))] contains [];
    g07_vec_z [rvec(leaf(Z))] contains [];
    g07_unique_ptr_a [uptr(leaf(A))] contains [];
    g07_unique_ptr_z [uptr(leaf(Z))] contains [];
    g07_shared_ptr_a [sptr(leaf(A))] contains [];
    g07_shared_ptr_z [sptr(leaf(Z))] contains [];
    g07_weak_ptr_a [wptr(leaf(A))] contains [];
    g07_weak_ptr_z [wptr(leaf(Z))] contains [];
    g07_ref_a [rf(leaf(A), false, false)] contains [];
    g07_ref_z [rf(leaf(Z), false, false)] contains [];
    g07_ptr_a [ptr(leaf(A), true)] contains [];
    g07_ptr_z [ptr(leaf(Z), true)] contains [];
    g07_slice_a [slice(leaf(A), false, None)] contains [];
    g07_slice_z [slice(leaf(Z), false, None)] contains [];
    g07_array_of_box_a [array(boxed(leaf(A)), 3)] contains [];
    g07_array_of_box_z [array(boxed(leaf(Z)), 3)] contains [];
    g07_box_of_array_a [boxed(array(leaf(A), 3))] contains [];
    g07_box_of_array_z [boxed(array(leaf(Z), 3))] contains [];
    g07_box_then_plain [boxed(leaf(Z)), leaf(A)] contains [A];
    g07_lifetime_a [leaf_lt(A)] contains [A];
    g07_lifetime_z [leaf_lt(Z)] contains [Z];
    g07_array_lifetime_a [array(leaf_lt(A), 3)] contains [A];
    g07_plain_then_box [leaf(A), boxed(leaf(B))] contains [A];
}
macro_rules! marked { ($($name:ident $mark:ident $ok:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::toposort::visit, visit_contract)]
    fn $name() {
        blank!(z = "Z");
        hold!(w = world());
        hold!(marks = Map::<*const Struct, Mark>::new());
        marks.insert(z, Mark::$mark);
        hold!(sorted = Vec::<&'static Struct>::with_capacity(4));
        hold!(cx = Errors::new());
        let r = crate::ext_visit::visit_body(cx, z, sorted, marks, w);
        kani::assert(r.is_ok() == $ok && sorted.is_empty() && cx.count == 0 && matches!(marks.get(&(z as *const Struct)), Some(Mark::$mark)), concat!(stringify!($name), ": nothing more is done"));
    }
)* } }
marked! { g07_already_emitted Visited true; g07_being_visited Visiting false; }

/// `sort` visits every struct of the bridge and nothing else.
macro_rules! sorts { ($($name:ident [$($v:ident),*];)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(crate::syntax::toposort::visit, visit_contract)]
    fn $name() {
        const N: usize = [$(stringify!($v)),*].len();
        static APIS: Twin<[core::mem::ManuallyDrop<Api>; N]> = Twin([$(core::mem::ManuallyDrop::new(crate::h_build::$v)),*]);
        let apis: &'static [Api] = unsafe { core::slice::from_raw_parts((&raw const APIS.0) as *const Api, N) };
        hold!(w = world());
        hold!(cx = Errors::new());
        hold!(sorted = toposort::sort(cx, apis, w));
        let (mut i, mut structs) = (0, 0);
        while i < N {
            if let Api::Struct(s) = &apis[i] {
                structs += 1;
                kani::assert(times(sorted, s) == 1, concat!(stringify!($name), ": every struct is emitted exactly once"));
            }
            i += 1;
        }
        kani::assert(sorted.len() == structs, concat!(stringify!($name), ": only the bridge's structs are emitted"));
    }
)* } }
struct Twin<T>(T);
unsafe impl<T> Sync for Twin<T> {}
sorts! {
    g07_sort_none [A_ENUM];
    g07_sort_one [A_ENUM, A_STRUCT];
    g07_sort_two [A_STRUCT, A_ENUM, A_STRUCT];
    g07_sort_three [A_STRUCT, A_STRUCT, A_STRUCT];
}
// END EXTRACTED
