//! Executable stand-in for `lambdaworks-math` at rev a17b951 (the real crate is a git
//! dependency that is not available offline).  It implements the part of the public API
//! lambdaworks_cairo_prover uses, with the documented behaviour of the original.
//! Its correctness is an assumption of every result obtained through it.
pub mod errors;
pub mod traits;
pub mod unsigned_integer;
pub mod field;
pub mod polynomial;
pub mod fft;
pub mod helpers;
