//! Offline stand-in for `cairo-vm` 0.6.0: a small Cairo VM written from the Cairo
//! whitepaper (instruction semantics, write-once relocatable memory, segment
//! relocation, `output` and `range_check` builtins, the two Cairo-1 hints the sample
//! program needs) behind the public paths that the prover uses.
pub mod cairo_run;
pub mod felt;
pub mod hint_processor;
pub mod serde;
pub mod types;
pub mod vm;
