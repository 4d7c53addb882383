//! Generated corpus: one bridge using every type form in every position, and the
//! contracts of every function the macro generates for it.
#![allow(dead_code, unused, static_mut_refs, improper_ctypes_definitions, improper_ctypes, non_camel_case_types, non_snake_case, non_local_definitions, clashing_extern_declarations)]
extern crate alloc;
use core::mem::{ManuallyDrop, MaybeUninit};
use core::pin::Pin;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
pub use ffi::{C, E, E64, L, M, Pod, S, Small};

/// A shim's symbol is private to the expansion; reach() makes the verifier see it.
pub trait Reach {
    fn reach();
}
pub struct Key(pub u32);
/// An opaque Rust type whose destruction is counted.
pub struct R {
    pub c: u32,
}
pub static mut R_DROPS: usize = 0;
pub static mut R_LAST: u32 = 0;
impl Drop for R {
    fn drop(&mut self) {
        unsafe {
            R_DROPS += 1;
            R_LAST = self.c;
        }
    }
}
impl PartialEq for R { fn eq(&self, o: &R) -> bool { self.c == o.c } }
impl Eq for R {}
impl PartialOrd for R { fn partial_cmp(&self, o: &R) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for R { fn cmp(&self, o: &R) -> core::cmp::Ordering { self.c.cmp(&o.c) } }
#[repr(C)]
pub struct OpaqueAlias([u8; 0]);
unsafe impl cxx::ExternType for OpaqueAlias {
    type Id = cxx::type_id!("n::OpaqueAlias");
    type Kind = cxx::kind::Opaque;
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
pub struct TrivialAlias {
    pub a: u64,
    pub b: u32,
}
unsafe impl cxx::ExternType for TrivialAlias {
    type Id = cxx::type_id!("n::TrivialAlias");
    type Kind = cxx::kind::Trivial;
}
pub struct Msg;
impl core::fmt::Display for Msg {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("ab")
    }
}
pub use contracts::*;
