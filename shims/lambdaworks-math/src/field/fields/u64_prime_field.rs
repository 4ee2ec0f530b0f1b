use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsFFTField, IsField, IsPrimeField};
use crate::traits::{ByteConversion, Deserializable, Serializable};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct U64PrimeField<const MODULUS: u64>;
pub type U64FieldElement<const MODULUS: u64> = FieldElement<U64PrimeField<MODULUS>>;

pub type F17 = U64PrimeField<17>;
pub type FE17 = U64FieldElement<17>;

impl IsFFTField for F17 {
    const TWO_ADICITY: u64 = 4;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: u64 = 3;
}

impl<const MODULUS: u64> IsField for U64PrimeField<MODULUS> {
    type BaseType = u64;

    fn add(a: &u64, b: &u64) -> u64 {
        ((*a as u128 + *b as u128) % MODULUS as u128) as u64
    }
    fn sub(a: &u64, b: &u64) -> u64 {
        (((*a as u128 + MODULUS as u128) - *b as u128) % MODULUS as u128) as u64
    }
    fn neg(a: &u64) -> u64 {
        (MODULUS - a) % MODULUS
    }
    fn mul(a: &u64, b: &u64) -> u64 {
        ((*a as u128 * *b as u128) % MODULUS as u128) as u64
    }
    fn inv(a: &u64) -> u64 {
        assert_ne!(*a, 0, "Cannot invert zero element");
        Self::pow(a, MODULUS - 2)
    }
    fn eq(a: &u64, b: &u64) -> bool {
        Self::from_u64(*a) == Self::from_u64(*b)
    }
    fn zero() -> u64 {
        0
    }
    fn one() -> u64 {
        1
    }
    fn from_u64(x: u64) -> u64 {
        x % MODULUS
    }
    fn from_base_type(x: u64) -> u64 {
        Self::from_u64(x)
    }
}

impl<const MODULUS: u64> IsPrimeField for U64PrimeField<MODULUS> {
    type RepresentativeType = u64;
    fn representative(x: &u64) -> u64 {
        *x
    }
    fn from_hex(hex_string: &str) -> Result<u64, CreationError> {
        let s = hex_string.trim_start_matches("0x");
        u64::from_str_radix(s, 16).map(Self::from_u64).map_err(|_| CreationError::InvalidHexString)
    }
}

impl<const MODULUS: u64> ByteConversion for U64FieldElement<MODULUS> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.value().to_be_bytes().into()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.value().to_le_bytes().into()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let b: [u8; 8] = bytes
            .get(0..8)
            .ok_or(ByteConversionError::FromBEBytesError)?
            .try_into()
            .map_err(|_| ByteConversionError::FromBEBytesError)?;
        Ok(Self::from(u64::from_be_bytes(b)))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let b: [u8; 8] = bytes
            .get(0..8)
            .ok_or(ByteConversionError::FromLEBytesError)?
            .try_into()
            .map_err(|_| ByteConversionError::FromLEBytesError)?;
        Ok(Self::from(u64::from_le_bytes(b)))
    }
}

impl<const MODULUS: u64> Serializable for FieldElement<U64PrimeField<MODULUS>> {
    fn serialize(&self) -> Vec<u8> {
        self.to_bytes_be()
    }
}
impl<const MODULUS: u64> Deserializable for FieldElement<U64PrimeField<MODULUS>> {
    fn deserialize(bytes: &[u8]) -> Result<Self, crate::errors::DeserializationError> {
        Self::from_bytes_be(bytes).map_err(|e| e.into())
    }
}
