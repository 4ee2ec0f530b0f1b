use thiserror::Error;

#[derive(Debug, Error, PartialEq, Eq, Clone, Copy)]
pub enum FieldError {
    #[error("Division by zero")]
    DivisionByZero,
    #[error("Can't calculate inverse of zero")]
    InvZeroError,
    #[error("Root of unity not found")]
    RootOfUnityError(u64),
}
