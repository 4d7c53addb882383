//! Contract stub of `proc_macro2` for verifying cxx's `syntax/` sources with Kani.
//! Only what cxx's non-parsing code uses. `Ident` equality, ordering, hashing and display are those of its
//! text, as documented by proc_macro2. Token streams carry no content: generated tokens are not observed here, except minus signs and integer literals.
#![allow(clippy::all)]
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};

#[derive(Copy, Clone)]
pub struct Span(u8);
impl Span {
    pub const fn call_site() -> Self { Span(0) }
    pub const fn mixed_site() -> Self { Span(0) }
    pub fn join(&self, _o: Span) -> Option<Span> { Some(Span(0)) }
    pub fn resolved_at(&self, _o: Span) -> Span { Span(0) }
    pub fn located_at(&self, _o: Span) -> Span { Span(0) }
}
impl Debug for Span { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }

/// `key` packs the text (at most 16 bytes), so that equality is one comparison.
#[derive(Clone, Copy)]
pub struct Ident { pub sym: &'static str, pub key: u128 }
pub const fn pack(s: &str) -> u128 {
    let b = s.as_bytes();
    if b.len() > 16 { return u128::MAX }
    let mut k = 0u128;
    let mut i = 0;
    while i < b.len() { k = k << 8 | b[i] as u128; i += 1 }
    k
}
impl Ident {
    pub fn new(s: &str, _sp: Span) -> Self { Ident::of(Box::leak(String::from(s).into_boxed_str())) }
    pub const fn of(sym: &'static str) -> Self { assert!(sym.len() <= 16); Ident { sym, key: pack(sym) } }
    /// A view with no capacity: never freed.
    pub fn to_string(&self) -> String { unsafe { String::from_raw_parts(self.sym.as_ptr() as *mut u8, self.sym.len(), 0) } }
    pub fn span(&self) -> Span { Span(0) }
    pub fn set_span(&mut self, _s: Span) {}
}
impl PartialEq for Ident { fn eq(&self, o: &Ident) -> bool { self.key == o.key } }
impl Eq for Ident {}
impl<T: ?Sized + AsRef<str>> PartialEq<T> for Ident { fn eq(&self, o: &T) -> bool { self.key == pack(o.as_ref()) } }
impl PartialOrd for Ident { fn partial_cmp(&self, o: &Ident) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Ident { fn cmp(&self, o: &Ident) -> std::cmp::Ordering { self.sym.cmp(o.sym) } }
impl Hash for Ident { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h) } }
impl Display for Ident { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.sym) } }
impl Debug for Ident { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.sym) } }

#[derive(Clone, Default)]
pub struct TokenStream { /// minus signs, integer literals and the value of the last one: the only content kept
    pub minus: u32, pub ints: u32, pub last: u64 }
impl TokenStream { pub const fn new() -> Self { TokenStream { minus: 0, ints: 0, last: 0 } } pub fn is_empty(&self) -> bool { true } }
impl Display for TokenStream { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl Debug for TokenStream { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl<T> Extend<T> for TokenStream { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for _ in i {} } }
impl<T> FromIterator<T> for TokenStream { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { for _ in i {} TokenStream::new() } }
#[derive(Clone)]
pub struct TokenTree;
impl IntoIterator for TokenStream { type Item = TokenTree; type IntoIter = std::option::IntoIter<TokenTree>; fn into_iter(self) -> Self::IntoIter { None.into_iter() } }
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub struct Group;
impl Group { pub fn new(_d: Delimiter, _t: TokenStream) -> Self { Group } pub fn set_span(&mut self, _s: Span) {} pub fn stream(&self) -> TokenStream { TokenStream::new() } }
#[derive(Copy, Clone)]
pub enum Spacing { Alone, Joint }
pub struct Punct;
impl Punct { pub fn new(_c: char, _s: Spacing) -> Self { Punct } }
pub struct Literal { pub n: u64 }
impl Literal {
    pub fn u64_unsuffixed(n: u64) -> Self { Literal { n } }
    pub fn usize_unsuffixed(n: usize) -> Self { Literal { n: n as u64 } }
    pub fn string(_s: &str) -> Self { Literal { n: 0 } }
}
pub mod extra {
    #[derive(Copy, Clone)]
    pub struct DelimSpan(pub super::Span);
    impl DelimSpan { pub fn join(&self) -> super::Span { self.0 } pub fn open(&self) -> super::Span { self.0 } pub fn close(&self) -> super::Span { self.0 } }
}
