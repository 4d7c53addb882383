//! G08: conditional compilation is evaluated as Rust evaluates it. `try_eval` is verified against its contract with
//! its recursive calls (on smaller expressions) assumed to meet it.
// BEGIN EXTRACTED
use crate::gen::{CfgEvaluator, CfgResult};
use crate::gen::body::try_eval_body;
// END EXTRACTED
use crate::h_build::*;
use crate::syntax::cfg::CfgExpr;
use crate::syntax::report::Errors;
use proc_macro2::Ident;
use syn::{Error, LitStr};

/// Truth of the options `a`, `b`, `c`: 0 false, 1 true, 2 undetermined.
static mut TRUTH: [u8; 3] = [0; 3];
const NAMES: [Ident; 3] = [id("a"), id("b"), id("c")];
fn option(k: usize) -> CfgExpr { CfgExpr::Eq(NAMES[k], None) }
fn index(n: &Ident) -> usize { if *n == NAMES[0] { 0 } else if *n == NAMES[1] { 1 } else { 2 } }
fn truth(k: usize) -> u8 { unsafe { TRUTH[k] } }
fn choose() { unsafe { TRUTH = kani::any(); kani::assume(TRUTH[0] < 3 && TRUTH[1] < 3 && TRUTH[2] < 3); } }
fn code(r: &Result<bool, Vec<Error>>) -> u8 { match r { Ok(b) => *b as u8, Err(_) => 2 } }
// BEGIN EXTRACTED
/// Contract of `try_eval`: for an option, its truth, with at least one error when undetermined.
fn by_contract(_: &dyn CfgEvaluator, e: &CfgExpr) -> Result<bool, Vec<Error>> {
    match e {
        CfgExpr::Eq(n, _) => match truth(index(n)) { 0 => Ok(false), 1 => Ok(true), _ => Err(vec![Error::any()]) },
        _ => panic!("by_contract: only options stand for subexpressions here"),
    }
}
struct Never;
impl CfgEvaluator for Never { fn eval(&self, _: &str, _: Option<&str>) -> CfgResult { panic!("Never: the evaluator is only asked about options") } }
// END EXTRACTED

fn and(a: u8, b: u8) -> u8 { if a == 0 || b == 0 { 0 } else if a == 1 && b == 1 { 1 } else { 2 } }
fn or(a: u8, b: u8) -> u8 { if a == 1 || b == 1 { 1 } else if a == 0 && b == 0 { 0 } else { 2 } }
fn not(a: u8) -> u8 { match a { 0 => 1, 1 => 0, _ => 2 } }

// BEGIN EXTRACTED
macro_rules! lists { ($($name:ident $kind:ident [$($k:literal),*] $want:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(crate::gen::cfg::try_eval, by_contract)]
    fn $name() {
        choose();
        let want: u8 = $want;
        hold!(list = [$(option($k)),*]);
        hold!(e = CfgExpr::$kind(unsafe { Vec::from_raw_parts(list.as_mut_ptr(), list.len(), list.len()) }));
        hold!(r = try_eval_body(&Never, e));
        kani::assert(code(r) == want, concat!(stringify!($name), ": decided as Rust decides it, undetermined only when the outcome depends on it"));
        if let Err(errors) = &*r { kani::assert(!errors.is_empty(), concat!(stringify!($name), ": an undetermined outcome is an error")); }
    }
)* } }
lists! {
    g08_all_0 All [] 1;
    g08_any_0 Any [] 0;
    g08_all_1 All [0] truth(0);
    g08_any_1 Any [0] truth(0);
    g08_all_2 All [0, 1] and(truth(0), truth(1));
    g08_any_2 Any [0, 1] or(truth(0), truth(1));
    g08_all_4_bounded All [0, 1, 2, 0] and(and(truth(0), truth(1)), truth(2));
    g08_all_3_bounded All [0, 1, 2] and(and(truth(0), truth(1)), truth(2));
    g08_any_3_bounded Any [0, 1, 2] or(or(truth(0), truth(1)), truth(2));
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(crate::gen::cfg::try_eval, by_contract)]
fn g08_not() {
    choose();
    hold!(e = CfgExpr::Not(put_cfg(option(0))));
    hold!(r = try_eval_body(&Never, e));
    kani::assert(code(r) == not(truth(0)), "g08_not: negated, undetermined when the operand is");
    if let Err(errors) = &*r { kani::assert(!errors.is_empty(), "g08_not: an undetermined outcome is an error"); }
}
#[kani::proof]
#[kani::unwind(6)]
fn g08_unconditional() {
    hold!(r = try_eval_body(&Never, &CfgExpr::Unconditional));
    kani::assert(code(r) == 1, "g08_unconditional: an item without condition is kept");
}
/// An option is what the evaluator says about exactly that name and value.
struct Says { name: &'static str, value: Option<&'static str> }
static mut ASKED: usize = 0;
impl CfgEvaluator for Says {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        unsafe { ASKED += 1; }
        kani::assert(name == self.name, "g08_option: asked about exactly that name");
        kani::assert(value == self.value, "g08_option: asked about exactly that value");
        match truth(0) { 0 => CfgResult::False, 1 => CfgResult::True, _ => CfgResult::Undetermined { msg: String::new() } }
    }
}
macro_rules! options { ($($name:ident $n:literal $v:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(std::alloc::dealloc, crate::h_build::no_dealloc)]
    fn $name() {
        choose();
        let value: Option<&'static str> = $v;
        hold!(e = CfgExpr::Eq(id($n), match value { Some(v) => Some(LitStr::of(v)), None => None }));
        hold!(r = try_eval_body(&Says { name: $n, value }, e));
        kani::assert(code(r) == truth(0), concat!(stringify!($name), ": as the evaluator says"));
        kani::assert(unsafe { ASKED } == 1, concat!(stringify!($name), ": asked once"));
        if let Err(errors) = &*r { kani::assert(!errors.is_empty(), concat!(stringify!($name), ": an undetermined outcome is an error")); }
    }
)* } }
options! {
    g08_flag "unix" None;
    g08_pair "feature" Some("x");
    g08_pair_empty "feature" Some("");
}
// END EXTRACTED

/// Several attributes on one item must all hold: `merge` yields a conjunction.
fn meaning(e: &CfgExpr) -> u8 {
    match e { CfgExpr::Not(x) => not(inner(x)), CfgExpr::All(l) => { let mut v = 1; let mut i = 0; while i < l.len() { v = and(v, inner(&l[i])); i += 1 } v }
        CfgExpr::Any(l) => { let mut v = 0; let mut i = 0; while i < l.len() { v = or(v, inner(&l[i])); i += 1 } v } _ => single(e) }
}
fn inner(e: &CfgExpr) -> u8 {
    match e { CfgExpr::Not(x) => not(single(x)), CfgExpr::All(l) => { let mut v = 1; let mut i = 0; while i < l.len() { v = and(v, single(&l[i])); i += 1 } v }
        CfgExpr::Any(l) => { let mut v = 0; let mut i = 0; while i < l.len() { v = or(v, single(&l[i])); i += 1 } v } _ => single(e) }
}
fn single(e: &CfgExpr) -> u8 {
    match e { CfgExpr::Unconditional => 1, CfgExpr::Eq(n, _) => truth(index(n)), _ => panic!("single: no deeper than the operands put in") }
}
macro_rules! merges { ($($name:ident $first:expr, $second:expr, $want:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(std::alloc::dealloc, crate::h_build::no_dealloc)]
    fn $name() {
        choose();
        hold!(e = $first);
        e.merge($second);
        kani::assert(meaning(e) == $want, concat!(stringify!($name), ": all conditions must hold"));
    }
)* } }
merges! {
    g08_merge_unconditional CfgExpr::Unconditional, option(0), truth(0);
    g08_merge_option option(0), option(1), and(truth(0), truth(1));
    g08_merge_not CfgExpr::Not(put_cfg(option(0))), option(1), and(not(truth(0)), truth(1));
    g08_merge_all CfgExpr::All(vec![option(0), option(1)]), option(2), and(and(truth(0), truth(1)), truth(2));
    g08_merge_any CfgExpr::Any(vec![option(0), option(1)]), option(2), and(or(truth(0), truth(1)), truth(2));
    g08_merge_any_into_option option(0), CfgExpr::Any(vec![option(1), option(2)]), and(truth(0), or(truth(1), truth(2)));
}
// BEGIN EXTRACTED
/// Undetermined conditions are reported and the item is dropped.
fn whole_contract(_: &dyn CfgEvaluator, _: &CfgExpr) -> Result<bool, Vec<Error>> { match truth(0) { 0 => Ok(false), 1 => Ok(true), _ => Err(vec![Error::any()]) } }
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(crate::gen::cfg::try_eval, whole_contract)]
fn g08_eval() {
    choose();
    hold!(cx = Errors::new());
    hold!(seen = crate::mock::BTreeSet::new());
    let kept = crate::gen::cfg::eval(cx, seen, &Never, &CfgExpr::Unconditional);
    kani::assert(kept == (truth(0) == 1), "g08_eval: kept exactly when the condition holds");
    kani::assert((cx.count != 0) == (truth(0) == 2), "g08_eval: an undetermined condition is reported");
}
// END EXTRACTED
