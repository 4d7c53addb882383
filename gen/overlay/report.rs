// Contract stub of syntax/report.rs for verification: an error is counted, its text is not kept (nor freed).
use quote::ToTokens;
use std::fmt::Display;
use syn::{Error, Result};

pub(crate) struct Errors {
    pub count: usize,
}

impl Errors {
    pub(crate) fn new() -> Self {
        Errors { count: 0 }
    }

    pub(crate) fn error(&mut self, _sp: impl ToTokens, msg: impl Display) {
        core::mem::forget(msg);
        self.count += 1;
    }

    pub(crate) fn push(&mut self, _error: Error) {
        self.count += 1;
    }

    pub(crate) fn propagate(&mut self) -> Result<()> {
        if self.count == 0 {
            Ok(())
        } else {
            Err(Error::new(proc_macro2::Span::call_site(), ""))
        }
    }
}
