//! Contract stub of `quote`: tokens are not observed.
use proc_macro2::{Group, Ident, Literal, Punct, TokenStream};
pub trait ToTokens {
    fn to_tokens(&self, tokens: &mut TokenStream);
    fn to_token_stream(&self) -> TokenStream { TokenStream::new() }
    fn into_token_stream(self) -> TokenStream where Self: Sized { TokenStream::new() }
}
macro_rules! t { ($($t:ty),*) => { $(impl ToTokens for $t { fn to_tokens(&self, _t: &mut TokenStream) {} })* } }
t!(str, String, Ident, Group, Punct, TokenStream, u8, usize, u64, bool);
impl<T: ?Sized + ToTokens> ToTokens for &T { fn to_tokens(&self, _t: &mut TokenStream) {} }
impl<T: ?Sized + ToTokens> ToTokens for &mut T { fn to_tokens(&self, _t: &mut TokenStream) {} }
impl<T: ToTokens> ToTokens for Option<T> { fn to_tokens(&self, _t: &mut TokenStream) {} }
impl<T: ?Sized + ToTokens> ToTokens for Box<T> { fn to_tokens(&self, _t: &mut TokenStream) {} }
impl ToTokens for Literal { fn to_tokens(&self, t: &mut TokenStream) { t.ints += 1; t.last = self.n } }
pub trait IdentFragment { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result; }
#[macro_export]
macro_rules! quote { ($($t:tt)*) => { $crate::none() } }
#[macro_export]
macro_rules! quote_spanned { ($($t:tt)*) => { $crate::none() } }
pub fn none() -> TokenStream { TokenStream::new() }
