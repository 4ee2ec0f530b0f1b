use crate::field::element::FieldElement;
use crate::field::fields::montgomery_backed_prime_fields::{IsModulus, MontgomeryBackendPrimeField};
use crate::field::traits::IsFFTField;
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::U256;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct MontgomeryConfigStark252PrimeField;
impl IsModulus<U256> for MontgomeryConfigStark252PrimeField {
    const MODULUS: U256 =
        U256::from_hex_unchecked("800000000000011000000000000000000000000000000000000000000000001");
}

pub type Stark252PrimeField = MontgomeryBackendPrimeField<MontgomeryConfigStark252PrimeField, 4>;

impl IsFFTField for Stark252PrimeField {
    const TWO_ADICITY: u64 = 192;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: U256 =
        U256::from_hex_unchecked("5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94");

    fn field_name() -> &'static str {
        "stark256"
    }
}

impl FieldElement<Stark252PrimeField> {
    pub fn to_bytes_le(&self) -> [u8; 32] {
        let v = ByteConversion::to_bytes_le(&self.representative());
        v.try_into().unwrap()
    }
    pub fn to_bytes_be(&self) -> [u8; 32] {
        let v = ByteConversion::to_bytes_be(&self.representative());
        v.try_into().unwrap()
    }
    pub fn to_bits_le(&self) -> [bool; 256] {
        let limbs = self.representative().limbs;
        let mut bits = [false; 256];
        for i in (0..4).rev() {
            let limb_bits = limbs[i];
            for j in 0..64 {
                bits[(3 - i) * 64 + j] = (limb_bits >> j) & 1 == 1;
            }
        }
        bits
    }
}

impl PartialOrd for FieldElement<Stark252PrimeField> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.representative().partial_cmp(&other.representative())
    }
}
impl Ord for FieldElement<Stark252PrimeField> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.representative().cmp(&other.representative())
    }
}
