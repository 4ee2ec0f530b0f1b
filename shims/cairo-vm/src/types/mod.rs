pub mod program;
pub mod relocatable;
