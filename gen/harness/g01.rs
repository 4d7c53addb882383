//! G01: discriminants are numbered as Rust numbers them. Contracts on `DiscriminantSet` over all 64-bit
//! magnitudes. An integer literal is its mathematical magnitude plus its suffix: the contract of
//! `u64::from_str` (assumed) is to return the magnitude when it fits 64 bits and an error otherwise.
use crate::syntax::atom::Atom::{self, *};
use crate::syntax::discriminant::{Discriminant, DiscriminantSet};
use crate::h_build::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::{Expr, ExprLit, ExprUnary, Lit, LitInt, Token, UnOp};

static mut MAGNITUDE: Option<u64> = None;
pub(crate) fn parse_u64(_s: &str) -> Result<u64, core::num::ParseIntError> {
    match unsafe { MAGNITUDE } {
        Some(m) => Ok(m),
        None => Err(unsafe { core::mem::transmute::<u8, core::num::ParseIntError>(2) }), // PosOverflow
    }
}

const FIXED: [Atom; 8] = [U8, I8, U16, I16, U32, I32, U64, I64];

fn range(a: Atom) -> Option<(i128, i128)> {
    match a {
        U8 => Some((0, 0xff)), U16 => Some((0, 0xffff)), U32 => Some((0, 0xffff_ffff)), U64 => Some((0, u64::MAX as i128)),
        I8 => Some((-0x80, 0x7f)), I16 => Some((-0x8000, 0x7fff)), I32 => Some((-0x8000_0000, 0x7fff_ffff)), I64 => Some((i64::MIN as i128, i64::MAX as i128)),
        _ => None,
    }
}
fn fits(a: Atom, v: i128) -> bool { match range(a) { Some((lo, hi)) => lo <= v && v <= hi, None => true } }
fn integer(suffix: &str) -> Option<Atom> {
    match suffix { "u8" => Some(U8), "u16" => Some(U16), "u32" => Some(U32), "u64" => Some(U64), "usize" => Some(Usize),
        "i8" => Some(I8), "i16" => Some(I16), "i32" => Some(I32), "i64" => Some(I64), "isize" => Some(Isize), _ => None }
}

/// The value of a discriminant is read off the tokens generated for it.
fn read(d: Discriminant) -> i128 {
    let mut t = TokenStream::new();
    d.to_tokens(&mut t);
    kani::assert(t.ints == 1 && t.minus <= 1, "one literal with at most one sign");
    if t.minus == 1 { -(t.last as i128) } else { t.last as i128 }
}
fn any_repr() -> Option<Atom> {
    match kani::any::<u8>() { 0 => None, 1 => Some(U8), 2 => Some(I8), 3 => Some(U16), 4 => Some(I16), 5 => Some(U32), 6 => Some(I32), 7 => Some(U64), 8 => Some(I64), 9 => Some(Usize), _ => Some(Isize) }
}
/// A literal expression: optional minus signs, magnitude (None: more than 64 bits), suffix.
fn lit(m: Option<u64>, negs: u8, suffix: &'static str) -> Expr {
    unsafe { MAGNITUDE = m }
    let mut e = Expr::Lit(ExprLit { lit: Lit::Int(LitInt::of("7", suffix)) });
    if negs >= 1 { e = Expr::Unary(ExprUnary { op: UnOp::Neg(Default::default()), expr: Box::new(e) }) }
    if negs >= 2 { e = Expr::Unary(ExprUnary { op: UnOp::Neg(Default::default()), expr: Box::new(e) }) }
    e
}
fn value(m: u64, negs: u8) -> i128 { if negs == 1 { -(m as i128) } else { m as i128 } }

/// Contract of an explicit discriminant: `seen` are the values already accepted, `repr` the representation so far.
/// Returns the value on acceptance, and updates `repr`.
fn explicit(seen: &[i128], repr: &mut Option<Atom>, m: Option<u64>, negs: u8, suffix: &str) -> Option<i128> {
    let m = m?;
    let v = value(m, negs);
    if !suffix.is_empty() {
        let new = integer(suffix)?;
        match *repr {
            None => { let mut i = 0; while i < seen.len() { if !fits(new, seen[i]) { return None } i += 1 } }
            Some(old) => if old != new { return None },
        }
        *repr = Some(new);
    }
    if let Some(r) = *repr { if !fits(r, v) { return None } }
    Some(v)
}
fn implicit(prev: Option<i128>, repr: Option<Atom>) -> Option<i128> {
    let v = match prev { None => 0, Some(p) => p + 1 };
    if v > u64::MAX as i128 { return None }
    if let Some(r) = repr { if !fits(r, v) { return None } }
    Some(v)
}
/// Contract of representation inference.
fn inferred(repr: Option<Atom>, seen: &[i128]) -> Option<Atom> {
    if repr.is_some() { return repr }
    let mut k = 0;
    while k < FIXED.len() {
        let mut all = true;
        let mut i = 0;
        while i < seen.len() { if !fits(FIXED[k], seen[i]) { all = false } i += 1 }
        if all { return Some(FIXED[k]) }
        k += 1;
    }
    None
}

fn do_explicit(set: &mut DiscriminantSet, m: Option<u64>, negs: u8, suffix: &'static str) -> Option<i128> {
    let e = core::mem::ManuallyDrop::new(lit(m, negs, suffix));
    match set.insert(&e) { Ok(d) => Some(read(d)), Err(_) => None }
}
fn do_implicit(set: &mut DiscriminantSet) -> Option<i128> {
    match set.insert_next() { Ok(d) => Some(read(d)), Err(_) => None }
}
/// A set holding one arbitrary accepted value: every reachable "previous value" and representation.
fn after_one(negs: u8, suffix: &'static str) -> (core::mem::ManuallyDrop<DiscriminantSet>, Option<Atom>, i128) {
    let mut repr = any_repr();
    let mut set = core::mem::ManuallyDrop::new(DiscriminantSet::new(repr));
    let m = Some(kani::any());
    let got = do_explicit(&mut set, m, negs, suffix);
    kani::assume(got.is_some());
    let want = explicit(&[], &mut repr, m, negs, suffix);
    kani::assume(want.is_some());
    (set, repr, want.unwrap())
}

/// Explicit first discriminant: accepted exactly when it fits, with its written value.
fn explicit_first(negs: u8, suffix: &'static str) {
    let mut repr = any_repr();
    let mut set = core::mem::ManuallyDrop::new(DiscriminantSet::new(repr));
    let m = kani::any();
    let got = do_explicit(&mut set, m, negs, suffix);
    kani::assert(got == explicit(&[], &mut repr, m, negs, suffix), "explicit discriminant keeps its value, or is rejected for not fitting");
}

/// Explicit discriminant after another one.
fn explicit_later(prev: u8, negs: u8, suffix: &'static str) {
    let (mut set, mut repr, v) = after_one(prev, "");
    let m = kani::any();
    let got = do_explicit(&mut set, m, negs, suffix);
    kani::assert(got == explicit(&[v], &mut repr, m, negs, suffix), "later explicit discriminant keeps its value, or is rejected for not fitting or contradicting the representation");
}

/// The first implicit discriminant is zero.
#[kani::proof]
#[kani::unwind(10)]
fn g01_implicit_first() {
    let repr = any_repr();
    let mut set = core::mem::ManuallyDrop::new(DiscriminantSet::new(repr));
    kani::assert(do_implicit(&mut set) == Some(0), "first implicit discriminant is zero");
    kani::assert(do_implicit(&mut set) == Some(1), "second implicit discriminant is one");
}

/// An implicit discriminant is its predecessor's plus one, or rejected on overflow.
fn implicit_successor(negs: u8) {
    let (mut set, repr, v) = after_one(negs, "");
    let got = do_implicit(&mut set);
    let want = implicit(Some(v), repr);
    kani::assert(got == want, "implicit discriminant is the predecessor's plus one");
    if let Some(w) = want {
        kani::assert(do_implicit(&mut set) == implicit(Some(w), repr), "and so is the next one");
    }
}

/// The inferred representation is the declared one, or the smallest that fits every value.
fn inferred_repr(an: u8, bn: u8) {
    let mut repr = any_repr();
    let mut set = core::mem::ManuallyDrop::new(DiscriminantSet::new(repr));
    let none = set.inferred_repr();
    kani::assert(none.ok() == if repr.is_some() { repr } else { Some(U8) }, "no variants: u8 unless declared");
    let a = Some(kani::any());
    let va = do_explicit(&mut set, a, an, "");
    kani::assume(va.is_some());
    let va = va.unwrap();
    kani::assert(set.inferred_repr().ok() == inferred(repr, &[va]), "representation of one value");
    let b = Some(kani::any());
    let suffix = "";
    let vb = do_explicit(&mut set, b, bn, suffix);
    kani::assume(vb.is_some());
    let vb = vb.unwrap();
    if let Some(x) = integer(suffix) { repr = Some(x) }
    kani::assert(set.inferred_repr().ok() == inferred(repr, &[va, vb]), "representation of two values");
    let vc = do_implicit(&mut set);
    kani::assert(vc == implicit(Some(vb), repr), "an implicit discriminant follows the one just before it");
    if let Some(vc) = vc {
        kani::assert(set.inferred_repr().ok() == inferred(repr, &[va, vb, vc]), "representation after an implicit value");
    }
}

/// Anything but an optionally negated integer literal is rejected.
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(<u64 as core::str::FromStr>::from_str, parse_u64)]
fn g01_not_a_literal() {
    not_a_literal(Expr::Other);
    not_a_literal(Expr::Lit(ExprLit { lit: Lit::Other }));
    not_a_literal(Expr::Lit(ExprLit { lit: Lit::Str(syn::LitStr::of("7")) }));
    let m = Some(kani::any());
    not_a_literal(Expr::Unary(ExprUnary { op: UnOp::Not(Default::default()), expr: Box::new(lit(m, 0, "")) }));
    not_a_literal(Expr::Unary(ExprUnary { op: UnOp::Deref(Default::default()), expr: Box::new(lit(m, 0, "")) }));
    not_a_literal(Expr::Unary(ExprUnary { op: UnOp::Neg(Default::default()), expr: Box::new(Expr::Other) }));
    not_a_literal(Expr::Unary(ExprUnary { op: UnOp::Neg(Default::default()), expr: Box::new(Expr::Lit(ExprLit { lit: Lit::Other })) }));
}
fn not_a_literal(e: Expr) {
    unsafe { MAGNITUDE = Some(7) }
    let mut set = core::mem::ManuallyDrop::new(DiscriminantSet::new(any_repr()));
    let e = core::mem::ManuallyDrop::new(e);
    kani::assert(set.insert(&e).is_err(), "only integer literals are accepted");
}

/// Parsing from text (used for values read from headers) and the ordering of discriminants follow the values.
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(<u64 as core::str::FromStr>::from_str, parse_u64)]
fn g01_text_and_order() {
    let mut v = [0i128; 2];
    let mut d = [Discriminant::zero(), Discriminant::zero()];
    let mut i = 0;
    while i < 2 {
        let m: u64 = kani::any();
        let neg: bool = kani::any();
        unsafe { MAGNITUDE = Some(m) }
        let r = (if neg { "-7" } else { "7" }).parse::<Discriminant>();
        kani::assert(r.is_ok(), "a 64-bit magnitude is accepted");
        if let Ok(x) = r { d[i] = x }
        v[i] = value(m, neg as u8);
        kani::assert(read(d[i]) == v[i], "the text's value");
        i += 1;
    }
    kani::assert(d[0].cmp(&d[1]) == v[0].cmp(&v[1]), "ordered by value");
    kani::assert((d[0] == d[1]) == (v[0] == v[1]), "equal exactly when the values are");
    unsafe { MAGNITUDE = None }
    kani::assert((if kani::any() { "-7" } else { "7" }).parse::<Discriminant>().is_err(), "more than 64 bits of magnitude is rejected");
}


macro_rules! one { ($($name:ident => $e:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(<u64 as core::str::FromStr>::from_str, parse_u64)]
    fn $name() { $e }
)* } }
macro_rules! by_suffix { ($($m:ident $s:literal;)*) => { $(
    mod $m {
        use super::*;
        one! {
            g01_explicit_first_pos => explicit_first(0, $s);
            g01_explicit_first_neg => explicit_first(1, $s);
            g01_explicit_later_pos_pos => explicit_later(0, 0, $s);
            g01_explicit_later_neg_pos => explicit_later(1, 0, $s);
        }
    }
)* } }
by_suffix! { none ""; u8 "u8"; u16 "u16"; u32 "u32"; u64 "u64"; usize "usize"; i8 "i8"; i16 "i16"; i32 "i32"; i64 "i64"; isize "isize"; x "x"; }
one! {
    g01_explicit_first_f32 => explicit_first(0, "f32");
    g01_explicit_first_bool => explicit_first(0, "bool");
    g01_explicit_first_string => explicit_first(0, "String");
    g01_explicit_first_u128 => explicit_first(0, "u128");
    g01_explicit_first_negneg => explicit_first(2, "");
    g01_explicit_later_pos_neg => explicit_later(0, 1, "");
    g01_explicit_later_neg_neg => explicit_later(1, 1, "");
    g01_explicit_later_neg_neg_i8 => explicit_later(1, 1, "i8");
    g01_explicit_later_neg_neg_i64 => explicit_later(1, 1, "i64");
    g01_implicit_successor_pos => implicit_successor(0);
    g01_implicit_successor_neg => implicit_successor(1);
    g01_inferred_repr_pos_pos => inferred_repr(0, 0);
    g01_inferred_repr_pos_neg => inferred_repr(0, 1);
    g01_inferred_repr_neg_pos => inferred_repr(1, 0);
    g01_inferred_repr_neg_neg => inferred_repr(1, 1);
}
