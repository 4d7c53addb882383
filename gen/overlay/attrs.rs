// Stub of syntax/attrs.rs for verification: passed-through attributes are opaque.
use quote::ToTokens;
use syn::Attribute;

#[derive(Clone)]
pub(crate) struct OtherAttrs(Vec<Attribute>);

impl OtherAttrs {
    pub(crate) const fn none() -> Self {
        OtherAttrs(Vec::new())
    }
    pub(crate) fn extend(&mut self, other: Self) {
        self.0.extend(other.0);
    }
}

impl ToTokens for OtherAttrs {
    fn to_tokens(&self, _t: &mut proc_macro2::TokenStream) {}
}
