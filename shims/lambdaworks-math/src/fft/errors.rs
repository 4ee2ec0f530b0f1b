use crate::field::errors::FieldError;
use thiserror::Error;

#[derive(Debug, Error, PartialEq, Eq, Clone)]
pub enum FFTError {
    #[error("Could not calculate {0} root of unity")]
    RootOfUnityError(u64),
    #[error("Input length is {0}, which is not a power of two")]
    InputError(usize),
    #[error("Order should be less than or equal to 63, but is {0}")]
    OrderError(u64),
    #[error("Inverse of zero")]
    InverseOfZeroError,
}

impl From<FieldError> for FFTError {
    fn from(error: FieldError) -> Self {
        match error {
            FieldError::DivisionByZero | FieldError::InvZeroError => FFTError::InverseOfZeroError,
            FieldError::RootOfUnityError(order) => FFTError::RootOfUnityError(order),
        }
    }
}
