pub mod ast;
pub mod build;
pub mod r#gen;
pub mod model;
pub mod ops;
#[cfg(feature = "std")]
pub mod wrap;
pub mod setup;
pub mod typed;
