//! G06: bridge types are equal exactly when written the same, and equal types hash equally. Each form is compared
//! with itself under independently chosen attributes and inner types on both sides, and every form with every other.
use crate::h_build::*;
use crate::syntax::*;
use proc_macro2::Ident;
use std::hash::{Hash, Hasher};
use syn::Lifetime;
use syn::punctuated::Punctuated;

const NAMES: [Ident; 4] = [id("A"), id("B"), id("u8"), id("String")];
const LTS: [Lifetime; 2] = [Lifetime::of("a"), Lifetime::of("b")];
fn pick<const N: usize>() -> usize { let i: usize = kani::any(); kani::assume(i < N); i }
fn leaf(i: usize) -> Type { Type::Ident(NamedType { rust: NAMES[i], generics: LT0 }) }
/// 0: none, 1 and 2: one of two names.
fn life(i: usize) -> Option<Lifetime> { if i == 0 { None } else { Some(LTS[i - 1].clone()) } }

fn reference(inner: Type, mutable: bool, pinned: bool, lt: usize) -> Box<Ref> {
    put_ref(Ref { pinned, ampersand: d(), lifetime: life(lt), mutable, inner, pin_tokens: None, mutability: None })
}

fn of_lifetime(i: usize, lt: usize) -> Type { Type::Ident(NamedType { rust: NAMES[i], generics: Lifetimes { lt_token: None, lifetimes: Punctuated::of(lifes([LTS[lt].clone()])), gt_token: None } }) }
/// What a hasher is fed, in order.
struct Stream { sum: u64, n: usize }
impl Hasher for Stream {
    fn finish(&self) -> u64 { self.sum }
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.write_u8(b[i]); i += 1 } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.n += 1; self.sum = self.sum.rotate_left(7) ^ x }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
fn stream(t: &Type) -> (u64, usize) { let mut h = Stream { sum: 0, n: 0 }; t.hash(&mut h); (h.sum, h.n) }

macro_rules! judge { ($name:ident $a:ident $b:ident $same:expr) => { {
    let same: bool = $same;
    kani::cover!(same, "same");
    kani::cover!(!same, "different");
    kani::assert(($a == $b) == same, concat!(stringify!($name), ": equal exactly when written the same"));
    kani::assert(($b == $a) == same, concat!(stringify!($name), ": equality is symmetric"));
    kani::assert($a == $a, concat!(stringify!($name), ": equality is reflexive"));
    kani::assert(!same || stream(&$a) == stream(&$b), concat!(stringify!($name), ": equal types hash equally"));
} } }
/// The same form on both sides, parameters chosen independently.
macro_rules! same_form { ($($name:ident($($p:ident: $n:literal),*) $form:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    fn $name() {
        let k1 = [$( { let $p = pick::<$n>(); $p } ),*];
        let k2 = [$( { let $p = pick::<$n>(); $p } ),*];
        let mut same = true;
        let mut j = 0;
        while j < k1.len() { if k1[j] != k2[j] { same = false } j += 1 }
        let mut j = 0; let _ = j;
        $( let $p = k1[j]; j += 1; )* let a = $form;
        let mut j = 0; let _ = j;
        $( let $p = k2[j]; j += 1; )* let b = $form;
        hold!(a = a);
        hold!(b = b);
        let (a, b): (&Type, &Type) = (a, b);
        judge!($name a b same);
    }
)* } }
same_form! {
    g06_name(i: 4) leaf(i);
    g06_box(i: 4) boxed(leaf(i));
    g06_vec(i: 4) rvec(leaf(i));
    g06_unique_ptr(i: 4) uptr(leaf(i));
    g06_shared_ptr(i: 4) sptr(leaf(i));
    g06_weak_ptr(i: 4) wptr(leaf(i));
    g06_cxx_vector(i: 4) cvec(leaf(i));
    g06_ref(i: 4, mutable: 2, pinned: 2, lt: 3) Type::Ref(reference(leaf(i), mutable == 1, pinned == 1, lt));
    g06_ptr(i: 4, mutable: 2) ptr(leaf(i), mutable == 1);
    g06_slice(i: 4, mutable: 2, lt: 3) Type::SliceRef(put_slice(SliceRef { ampersand: d(), lifetime: life(lt), mutable: mutable == 1, bracket: d(), inner: leaf(i), mutability: None }));
    g06_array(i: 4, len: 9) array(leaf(i), len);
    g06_str(lt: 3) Type::Str(reference(named("str"), false, false, lt));
    g06_nested(i: 4, mutable: 2) boxed(rvec(ptr(leaf(i), mutable == 1)));
    g06_name_lifetime(i: 2, lt: 2) of_lifetime(i, lt);
}

/// Every pair of different forms.
const FORMS: usize = 14;
fn form(k: usize) -> Type {
    match k { 0 => named("S"), 1 => boxed(named("S")), 2 => rvec(named("S")), 3 => uptr(named("S")), 4 => sptr(named("S")), 5 => wptr(named("S")), 6 => cvec(named("S")), 7 => rf(named("S"), false, false),
        8 => ptr(named("S"), false), 9 => strr(), 10 => slice(named("S"), false, None), 11 => array(named("S"), 1), 12 => func([], None), _ => void() }
}
macro_rules! pairs { ($($name:ident $k:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    fn $name() {
        hold!(a = form($k));
        let a: &Type = a;
        macro_rules! other { ($j:literal) => { {
            hold!(b = form($j));
            let b: &Type = b;
            kani::assert((a == b) == ($k == $j), concat!(stringify!($name), ": forms are only equal to themselves"));
            kani::assert(($k != $j) || stream(a) == stream(b), concat!(stringify!($name), ": equal types hash equally"));
        } } }
        other!(0); other!(1); other!(2); other!(3); other!(4); other!(5); other!(6); other!(7); other!(8); other!(9); other!(10); other!(11); other!(12); other!(13);
    }
)* } }
pairs! { g06_form_0 0; g06_form_1 1; g06_form_2 2; g06_form_3 3; g06_form_4 4; g06_form_5 5; g06_form_6 6; g06_form_7 7; g06_form_8 8; g06_form_9 9; g06_form_10 10; g06_form_11 11; g06_form_12 12; g06_form_13 13; }

/// A name without lifetime arguments is not the name with one.
#[kani::proof]
#[kani::unwind(20)]
fn g06_lifetime_presence() {
    let i = pick::<4>();
    hold!(a = leaf(i));
    hold!(b = of_lifetime(i, pick::<2>()));
    let (a, b): (&Type, &Type) = (a, b);
    kani::assert(a != b && b != a, "g06_lifetime_presence: lifetime arguments matter");
}

/// Function types: their signatures are compared.
macro_rules! signatures { ($($name:ident($($p:ident: $n:literal),*) |$s:ident| $set:block)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    fn $name() {
        let mut same = true;
        $( let $p = (pick::<$n>(), pick::<$n>()); same = same && $p.0 == $p.1; )*
        hold!(a = SIG0);
        hold!(b = SIG0);
        { $( let $p = $p.0; )* let $s = &mut *a; $set }
        { $( let $p = $p.1; )* let $s = &mut *b; $set }
        let mut h = Stream { sum: 0, n: 0 };
        a.hash(&mut h);
        let mut g = Stream { sum: 0, n: 0 };
        b.hash(&mut g);
        kani::cover!(same, "same");
        kani::cover!(!same, "different");
        kani::assert((*a == *b) == same, concat!(stringify!($name), ": equal exactly when written the same"));
        kani::assert((*b == *a) == same, concat!(stringify!($name), ": equality is symmetric"));
        kani::assert(!same || (h.sum == g.sum && h.n == g.n), concat!(stringify!($name), ": equal signatures hash equally"));
    }
)* } }
signatures! {
    g06_fn_flags(throws: 2, unsafety: 2) |s| { s.throws = throws == 1; if unsafety == 1 { s.unsafety = Some(d()) } }
    g06_fn_result(ret: 4, throws: 2) |s| { s.throws = throws == 1; unsafe { core::ptr::write(&mut s.ret, Some(leaf(ret))) } }
    g06_fn_argument(arg: 4) |s| { unsafe { core::ptr::write(&mut s.args, Punctuated::of(vars([var("x", leaf(arg))]))) } }
    g06_fn_receiver(i: 4, mutable: 2, pinned: 2, lt: 3) |s| { unsafe { core::ptr::write(&mut s.receiver, Some(Receiver { lifetime: life(lt), ty: NamedType { rust: NAMES[i], generics: LT0 }, ..receiver("S", mutable == 1, pinned == 1) })) } }
}
#[kani::proof]
#[kani::unwind(20)]
fn g06_fn_arguments() {
    let i = pick::<4>();
    let j = pick::<4>();
    hold!(none = func([], None));
    hold!(one = func([var("x", leaf(i))], None));
    hold!(two = func([var("x", leaf(i)), var("y", leaf(j))], None));
    hold!(other = func([var("p", leaf(j)), var("q", leaf(i))], None));
    let (none, one, two, other): (&Type, &Type, &Type, &Type) = (none, one, two, other);
    kani::assert(none != one && one != none && one != two && two != one && none != two, "g06_fn_arguments: the number of arguments matters");
    kani::assert((two == other) == (i == j), "g06_fn_arguments: argument types matter in order, their names do not");
    kani::assert(i != j || stream(two) == stream(other), "g06_fn_arguments: equal types hash equally");
}
/// Receivers, which are compared with their functions.
#[kani::proof]
#[kani::unwind(20)]
fn g06_receiver() {
    let (i, m, p, l) = (pick::<4>(), pick::<2>(), pick::<2>(), pick::<3>());
    let (i2, m2, p2, l2) = (pick::<4>(), pick::<2>(), pick::<2>(), pick::<3>());
    hold!(a = Receiver { lifetime: life(l), ty: NamedType { rust: NAMES[i], generics: LT0 }, ..receiver("S", m == 1, p == 1) });
    hold!(b = Receiver { lifetime: life(l2), ty: NamedType { rust: NAMES[i2], generics: LT0 }, ..receiver("S", m2 == 1, p2 == 1) });
    let same = i == i2 && m == m2 && p == p2 && l == l2;
    kani::cover!(same, "same");
    kani::assert((*a == *b) == same, "g06_receiver: equal exactly when written the same");
    let mut h = Stream { sum: 0, n: 0 }; a.hash(&mut h);
    let mut g = Stream { sum: 0, n: 0 }; b.hash(&mut g);
    kani::assert(!same || (h.sum == g.sum && h.n == g.n), "g06_receiver: equal receivers hash equally");
}
#[kani::proof]
#[kani::unwind(20)]
fn g06_fn_result_presence() {
    let i = pick::<4>();
    hold!(a = SIG0);
    hold!(b = SIG0);
    unsafe { core::ptr::write(&mut b.ret, Some(leaf(i))); }
    kani::assert(*a != *b && *b != *a && *a == *a, "g06_fn_result_presence: returning nothing differs from returning something");
}
