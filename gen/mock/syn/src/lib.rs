//! Contract stub of `syn` for verifying cxx's `syntax/` sources with Kani.
//! Data types hold only what cxx's non-parsing code reads; parsing entry points are `unreachable_parser()`,
//! which fails the harness if verified code reaches it.
#![allow(clippy::all)]
pub use proc_macro2::Ident;
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};

pub fn unreachable_parser() -> ! { panic!("syn parser stub reached") }

#[derive(Clone)]
pub struct Error(u8);
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    pub fn any() -> Self { Error(0) }
    pub fn new<T: Display>(_s: Span, m: T) -> Self { std::mem::forget(m); Error(0) }
    pub fn new_spanned<T: ToTokens, U: Display>(_t: T, m: U) -> Self { std::mem::forget(m); Error(0) }
    pub fn combine(&mut self, _o: Error) {}
    pub fn to_compile_error(&self) -> TokenStream { TokenStream::new() }
    pub fn span(&self) -> Span { Span::call_site() }
}
impl Display for Error { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl Debug for Error { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for Error {}

pub mod token {
    use proc_macro2::{extra::DelimSpan, Span, TokenStream};
    use quote::ToTokens;
    macro_rules! tok { ($minus:literal $($n:ident)*) => { $(
        #[derive(Copy, Clone)]
        pub struct $n { pub span: Span }
        #[allow(non_snake_case)]
        pub fn $n(_s: Span) -> $n { $n { span: Span::call_site() } }
        impl Default for $n { fn default() -> Self { $n { span: Span::call_site() } } }
        impl ToTokens for $n { fn to_tokens(&self, t: &mut TokenStream) { t.minus += $minus } }
        impl std::cmp::PartialEq for $n { fn eq(&self, _o: &Self) -> bool { true } }
        impl std::cmp::Eq for $n {}
        impl std::hash::Hash for $n { fn hash<H: std::hash::Hasher>(&self, _h: &mut H) {} }
        impl crate::parse::Parse for $n { fn parse(_i: crate::parse::ParseStream) -> crate::Result<Self> { crate::unreachable_parser() } }
    )* } }
    tok!(1 Minus);
    tok!(0 Abstract And Apostrophe As Async At Colon Comma Const Dot Dyn Enum Eq Extern Fn Gt Impl Lt Mod Mut Not Pound Priv Pub Question RArrow Ref SelfValue SelfType Semi Star Static Struct Super Type Underscore Unsafe Use Where PathSep);
    macro_rules! delim { ($($n:ident)*) => { $(
        #[derive(Copy, Clone)]
        pub struct $n { pub span: DelimSpan }
        #[allow(non_snake_case)]
        pub fn $n(_s: Span) -> $n { $n::default() }
        impl Default for $n { fn default() -> Self { $n { span: DelimSpan(Span::call_site()) } } }
        impl $n { pub fn surround<F: FnOnce(&mut TokenStream)>(&self, t: &mut TokenStream, f: F) { f(t) } }
    )* } }
    delim!(Brace Bracket Paren);
}
#[macro_export]
macro_rules! Token {
    [&] => { $crate::token::And }; [async] => { $crate::token::Async }; [:] => { $crate::token::Colon }; [,] => { $crate::token::Comma };
    [const] => { $crate::token::Const }; [enum] => { $crate::token::Enum }; [=] => { $crate::token::Eq }; [fn] => { $crate::token::Fn };
    [>] => { $crate::token::Gt }; [impl] => { $crate::token::Impl }; [<] => { $crate::token::Lt }; [-] => { $crate::token::Minus };
    [mut] => { $crate::token::Mut }; [!] => { $crate::token::Not }; [pub] => { $crate::token::Pub }; [->] => { $crate::token::RArrow };
    [self] => { $crate::token::SelfValue }; [Self] => { $crate::token::SelfType }; [;] => { $crate::token::Semi }; [*] => { $crate::token::Star };
    [struct] => { $crate::token::Struct }; [type] => { $crate::token::Type }; [unsafe] => { $crate::token::Unsafe }; [::] => { $crate::token::PathSep };
    [_] => { $crate::token::Underscore }; [#] => { $crate::token::Pound }; [extern] => { $crate::token::Extern }; [mod] => { $crate::token::Mod };
    [use] => { $crate::token::Use }; [where] => { $crate::token::Where }; [dyn] => { $crate::token::Dyn }; [.] => { $crate::token::Dot };
}
#[macro_export]
macro_rules! custom_keyword { ($n:ident) => {
    #[allow(non_camel_case_types)]
    #[derive(Copy, Clone)]
    pub struct $n { pub span: ::proc_macro2::Span }
    #[allow(non_snake_case)]
    pub fn $n(_s: ::proc_macro2::Span) -> $n { $n { span: ::proc_macro2::Span::call_site() } }
    impl ::quote::ToTokens for $n { fn to_tokens(&self, _t: &mut ::proc_macro2::TokenStream) {} }
    impl $crate::parse::Parse for $n { fn parse(_i: $crate::parse::ParseStream) -> $crate::Result<Self> { $crate::unreachable_parser() } }
} }
#[macro_export]
macro_rules! parenthesized { ($c:ident in $i:expr) => { { $c = $crate::parse::fork($i); $crate::token::Paren::default() } } }

pub mod parse {
    pub use crate::{Error, Result};
    pub struct ParseBuffer { _p: u8 }
    pub type ParseStream<'a> = &'a ParseBuffer;
    pub trait Parse: Sized { fn parse(input: ParseStream) -> Result<Self>; }
    pub trait Parser: Sized { type Output; fn parse_str(self, s: &str) -> Result<Self::Output>; }
    impl<F, T> Parser for F where F: FnOnce(ParseStream) -> Result<T> { type Output = T; fn parse_str(self, _s: &str) -> Result<T> { crate::unreachable_parser() } }
    pub fn fork(_i: &ParseBuffer) -> ParseBuffer { crate::unreachable_parser() }
    pub struct Lookahead1 { _p: u8 }
    impl Lookahead1 { pub fn peek<T>(&self, _t: T) -> bool { crate::unreachable_parser() } pub fn error(self) -> Error { crate::unreachable_parser() } }
    impl ParseBuffer {
        pub fn parse<T: Parse>(&self) -> Result<T> { crate::unreachable_parser() }
        pub fn call<T>(&self, _f: fn(ParseStream) -> Result<T>) -> Result<T> { crate::unreachable_parser() }
        pub fn peek<T>(&self, _t: T) -> bool { crate::unreachable_parser() }
        pub fn lookahead1(&self) -> Lookahead1 { crate::unreachable_parser() }
        pub fn is_empty(&self) -> bool { crate::unreachable_parser() }
        pub fn error<T: std::fmt::Display>(&self, _t: T) -> Error { crate::unreachable_parser() }
        pub fn span(&self) -> proc_macro2::Span { crate::unreachable_parser() }
    }
    impl<T: Parse> Parse for Option<T> { fn parse(_i: ParseStream) -> Result<Self> { crate::unreachable_parser() } }
    impl Parse for proc_macro2::Ident { fn parse(_i: ParseStream) -> Result<Self> { crate::unreachable_parser() } }
}
pub mod ext {
    pub trait IdentExt: Sized {
        fn parse_any(input: crate::parse::ParseStream) -> crate::Result<Self>;
        #[allow(non_upper_case_globals)]
        const peek_any: u8 = 0;
        fn unraw(&self) -> Self;
    }
    impl IdentExt for proc_macro2::Ident {
        fn parse_any(_i: crate::parse::ParseStream) -> crate::Result<Self> { crate::unreachable_parser() }
        fn unraw(&self) -> Self { if let Some(s) = self.sym.strip_prefix("r#") { proc_macro2::Ident::of(s) } else { *self } }
    }
}
pub mod punctuated {
    use std::marker::PhantomData;
    #[derive(Clone)]
    pub struct Punctuated<T, P> { pub items: Vec<T>, _p: PhantomData<P> }
    impl<T, P> Punctuated<T, P> {
        pub const fn new() -> Self { Punctuated { items: Vec::new(), _p: PhantomData } }
        pub const fn of(items: Vec<T>) -> Self { Punctuated { items, _p: PhantomData } }
        pub fn is_empty(&self) -> bool { self.items.is_empty() }
        pub fn len(&self) -> usize { self.items.len() }
        pub fn iter(&self) -> std::slice::Iter<'_, T> { self.items.iter() }
        pub fn first(&self) -> Option<&T> { self.items.first() }
        pub fn last(&self) -> Option<&T> { self.items.last() }
        pub fn push_value(&mut self, t: T) { self.items.push(t) }
        pub fn push_punct(&mut self, _p: P) {}
        pub fn push(&mut self, t: T) { self.items.push(t) }
    }
    impl<T, P> Default for Punctuated<T, P> { fn default() -> Self { Punctuated::new() } }
    impl<'a, T, P> IntoIterator for &'a Punctuated<T, P> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.items.iter() } }
    impl<T, P> IntoIterator for Punctuated<T, P> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.items.into_iter() } }
    impl<T: PartialEq, P> PartialEq for Punctuated<T, P> { fn eq(&self, o: &Self) -> bool { self.items == o.items } }
    impl<T: Eq, P> Eq for Punctuated<T, P> {}
    impl<T: std::hash::Hash, P> std::hash::Hash for Punctuated<T, P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.items.hash(h) } }
    impl<T: quote::ToTokens, P> quote::ToTokens for Punctuated<T, P> { fn to_tokens(&self, _t: &mut proc_macro2::TokenStream) {} }
    impl<T, P> std::ops::Index<usize> for Punctuated<T, P> { type Output = T; fn index(&self, i: usize) -> &T { &self.items[i] } }
    impl<T, P> Extend<T> for Punctuated<T, P> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.items.extend(i) } }
}

#[derive(Clone)]
pub struct Lifetime { pub apostrophe: Span, pub ident: Ident }
impl Lifetime { pub fn new(s: &str, _sp: Span) -> Self { Lifetime { apostrophe: Span::call_site(), ident: Ident::new(&s[1..], Span::call_site()) } }
    pub const fn of(s: &'static str) -> Self { Lifetime { apostrophe: Span::call_site(), ident: Ident::of(s) } }
    pub fn span(&self) -> Span { Span::call_site() } }
impl PartialEq for Lifetime { fn eq(&self, o: &Self) -> bool { self.ident == o.ident } }
impl Eq for Lifetime {}
impl Hash for Lifetime { fn hash<H: Hasher>(&self, h: &mut H) { self.ident.hash(h) } }
impl Display for Lifetime { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("'")?; f.write_str(self.ident.sym) } }
impl ToTokens for Lifetime { fn to_tokens(&self, _t: &mut TokenStream) {} }

/// An integer literal: digits and suffix as written (`1_000u8` has base-10 digits "1000", suffix "u8").
#[derive(Clone)]
pub struct LitInt { pub digits: &'static str, pub suffix: &'static str }
impl LitInt {
    pub fn new(_s: &str, _sp: Span) -> Self { unreachable_parser() }
    pub const fn of(digits: &'static str, suffix: &'static str) -> Self { LitInt { digits, suffix } }
    pub fn base10_digits(&self) -> &str { self.digits }
    pub fn suffix(&self) -> &str { self.suffix }
    pub fn base10_parse<N>(&self) -> Result<N> where N: std::str::FromStr, N::Err: Display { self.digits.parse::<N>().map_err(|_| Error(0)) }
    pub fn span(&self) -> Span { Span::call_site() }
}
impl ToTokens for LitInt { fn to_tokens(&self, _t: &mut TokenStream) {} }
/// A string literal by its value.
#[derive(Clone)]
pub struct LitStr { pub value: &'static str }
impl LitStr {
    pub fn new(_s: &str, _sp: Span) -> Self { unreachable_parser() }
    pub const fn of(value: &'static str) -> Self { LitStr { value } }
    /// A view with no capacity: never freed.
    pub fn value(&self) -> String { unsafe { String::from_raw_parts(self.value.as_ptr() as *mut u8, self.value.len(), 0) } }
    pub fn span(&self) -> Span { Span::call_site() }
    pub fn parse_with<T>(&self, _f: impl FnOnce(parse::ParseStream) -> Result<T>) -> Result<T> { unreachable_parser() }
    pub fn parse<T: parse::Parse>(&self) -> Result<T> { unreachable_parser() }
}
impl ToTokens for LitStr { fn to_tokens(&self, _t: &mut TokenStream) {} }
impl parse::Parse for LitStr { fn parse(_i: parse::ParseStream) -> Result<Self> { unreachable_parser() } }
#[allow(non_upper_case_globals)]
pub const LitStr: u8 = 0;
#[derive(Clone)]
pub enum Lit { Str(LitStr), Int(LitInt), Other }
impl ToTokens for Lit { fn to_tokens(&self, _t: &mut TokenStream) {} }
#[derive(Clone)]
pub struct ExprLit { pub lit: Lit }
#[derive(Clone)]
pub enum UnOp { Deref(token::Star), Not(token::Not), Neg(token::Minus) }
#[derive(Clone)]
pub struct ExprUnary { pub op: UnOp, pub expr: Box<Expr> }
#[derive(Clone)]
pub struct ExprPath { pub qself: Option<()>, pub path: Path }
#[derive(Clone)]
pub enum Expr { Lit(ExprLit), Unary(ExprUnary), Path(ExprPath), Other }
impl ToTokens for Expr { fn to_tokens(&self, _t: &mut TokenStream) {} }
#[derive(Clone)]
pub struct PathArguments;
impl PathArguments { pub fn is_none(&self) -> bool { true } pub fn is_empty(&self) -> bool { true } }
#[derive(Clone)]
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
#[derive(Clone)]
pub struct Path { pub leading_colon: Option<token::PathSep>, pub segments: punctuated::Punctuated<PathSegment, token::PathSep> }
impl Path { pub fn is_ident<I: ?Sized>(&self, i: &I) -> bool where Ident: PartialEq<I> { self.segments.len() == 1 && self.segments[0].ident == *i } }
impl ToTokens for Path { fn to_tokens(&self, _t: &mut TokenStream) {} }
#[derive(Clone)]
pub struct MetaNameValue { pub path: Path, pub value: Expr }
#[derive(Clone)]
pub enum Meta { NameValue(MetaNameValue), Other }
impl ToTokens for Meta { fn to_tokens(&self, _t: &mut TokenStream) {} }
#[derive(Clone)]
pub struct Attribute { pub pound_token: token::Pound, pub meta: Meta }
impl Attribute {
    pub fn parse_args_with<T>(&self, _f: impl FnOnce(parse::ParseStream) -> Result<T>) -> Result<T> { unreachable_parser() }
    pub fn path(&self) -> &Path { unreachable_parser() }
}
impl ToTokens for Attribute { fn to_tokens(&self, _t: &mut TokenStream) {} }
#[derive(Clone)]
pub struct LifetimeParam { pub lifetime: Lifetime }
#[derive(Clone)]
pub enum GenericParam { Lifetime(LifetimeParam), Other }
#[derive(Clone, Default)]
pub struct Generics { pub lt_token: Option<token::Lt>, pub params: punctuated::Punctuated<GenericParam, token::Comma>, pub gt_token: Option<token::Gt>, pub where_clause: Option<()> }
impl ToTokens for GenericParam { fn to_tokens(&self, _t: &mut TokenStream) {} }
impl ToTokens for Generics { fn to_tokens(&self, _t: &mut TokenStream) {} }
#[derive(Clone)]
pub struct Type;
impl ToTokens for Type { fn to_tokens(&self, _t: &mut TokenStream) {} }
