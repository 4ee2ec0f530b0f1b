pub mod field_element;
pub mod field_element_vector;
pub mod types;
