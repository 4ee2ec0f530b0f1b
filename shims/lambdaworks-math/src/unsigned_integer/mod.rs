pub mod element;
pub mod montgomery;
pub mod traits;
