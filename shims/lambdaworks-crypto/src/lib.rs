//! Offline stand-in for `lambdaworks-crypto` (rev a17b951). See lambdaworks-math.
pub mod fiat_shamir;
pub mod merkle_tree;
