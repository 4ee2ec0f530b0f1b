use thiserror::Error;

#[derive(Error, Debug, PartialEq, Eq, Clone, Copy)]
pub enum ByteConversionError {
    #[error("from_be_bytes failed")]
    FromBEBytesError,
    #[error("from_le_bytes failed")]
    FromLEBytesError,
    #[error("Invalid value")]
    InvalidValue,
    #[error("The point is not in the subgroup")]
    PointNotInSubgroup,
    #[error("value is not compressed")]
    ValueNotCompressed,
}

#[derive(Error, Debug, PartialEq, Eq, Clone, Copy)]
pub enum CreationError {
    #[error("Invalid hex string")]
    InvalidHexString,
    #[error("Invalid dec string")]
    InvalidDecString,
    #[error("Hex string is empty")]
    EmptyString,
    #[error("Hex string is too big")]
    HexStringIsTooBig,
    #[error("representative out of range")]
    RepresentativeOutOfRange,
}

#[derive(Error, Debug, PartialEq, Eq, Clone, Copy)]
pub enum DeserializationError {
    #[error("Invalid amount of bytes")]
    InvalidAmountOfBytes,
    #[error("Error when creating a field from bytes")]
    FieldFromBytesError,
    #[error("Pointer size error")]
    PointerSizeError,
    #[error("Invalid value")]
    InvalidValue,
}

impl From<ByteConversionError> for DeserializationError {
    fn from(error: ByteConversionError) -> Self {
        match error {
            ByteConversionError::FromBEBytesError => DeserializationError::FieldFromBytesError,
            ByteConversionError::FromLEBytesError => DeserializationError::FieldFromBytesError,
            _ => DeserializationError::InvalidValue,
        }
    }
}
