//! Where generated text is compiled when the interpreter cannot read it.
pub use intl_pluralrules::{operands, PluralCategory};
pub mod rules;
