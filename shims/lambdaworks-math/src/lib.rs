//! Offline stand-in for `lambdaworks-math` (rev a17b951): same public paths and the
//! same mathematics, written from scratch because the git dependency cannot be
//! fetched in this sandbox.  It is part of the trusted base of every check in /verif
//! and is itself checked through golden proofs and the field laws (see DESIGN.md).
pub mod errors;
pub mod fft;
pub mod field;
pub mod helpers;
pub mod polynomial;
pub mod traits;
pub mod unsigned_integer;
