pub mod deserialize_program;
