pub mod blake2s;
pub use blake2s::{Blake2sWithParameterBlock};
