//! Fields: raw arithmetic plus the tagged (symbolic) wrappers.
mod fp;
mod fq;
pub mod sym;

pub use fp::RawFp;
pub use fq::RawFq;
pub use sym::{Fp, Fq};
