pub mod element;
pub mod errors;
pub mod fields;
pub mod test_fields;
pub mod traits;
