//! The reference semantics: an executable specification of the template language.

pub mod eval;
pub mod parse;
pub mod syn;
