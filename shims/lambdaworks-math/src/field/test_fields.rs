pub mod u64_test_field {
    pub use crate::field::fields::u64_prime_field::{F17 as U64TestField, U64PrimeField};
}
