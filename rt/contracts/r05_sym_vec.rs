//! Contracts of the cxxbridge1$rust_vec$* entry points (property R05): the
//! symbols resolve to these functions, so they are called by name through the
//! foreign declarations below.
#![allow(dead_code, missing_docs)]
// The entry points are unnameable (inside `const _`); they delegate to RustVec's
// methods, which r05_reprs.rs specifies.
