// syntax/parse.rs is not under verification here; only its keyword tokens are needed.
pub(crate) mod kw {
    syn::custom_keyword!(Pin);
    syn::custom_keyword!(Result);
}
pub(crate) fn parse_items() -> ! {
    syn::unreachable_parser()
}
