use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::unsigned_integer::element::U256;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, PartialEq, Eq, Debug, Hash, Copy, PartialOrd, Ord)]
pub struct Felt252(FieldElement<Stark252PrimeField>);

impl Felt252 {
    pub fn zero() -> Self {
        Self(FieldElement::zero())
    }
    pub fn one() -> Self {
        Self(FieldElement::one())
    }
    pub fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
    pub fn from_hex(s: &str) -> Option<Self> {
        U256::from_hex(s).ok().map(|u| Self(FieldElement::new(u)))
    }
    pub fn to_le_bytes(&self) -> [u8; 32] {
        self.0.to_bytes_le()
    }
    pub fn to_be_bytes(&self) -> [u8; 32] {
        self.0.to_bytes_be()
    }
    pub fn to_u256(&self) -> U256 {
        self.0.representative()
    }
    pub fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.to_u256()).ok()
    }
    pub fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            None
        } else {
            Some(Self(self.0.inv()))
        }
    }
    /// Signed small value when |self| < 2^63.
    pub fn to_i64(&self) -> Option<i64> {
        if let Some(v) = self.to_u64() {
            return i64::try_from(v).ok();
        }
        let n = (-*self).to_u64()?;
        i64::try_from(n).ok().map(|v| -v)
    }
}
impl From<u64> for Felt252 {
    fn from(v: u64) -> Self {
        Self(FieldElement::from(v))
    }
}
impl From<usize> for Felt252 {
    fn from(v: usize) -> Self {
        Self(FieldElement::from(v as u64))
    }
}
impl Add for Felt252 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self(self.0 + o.0)
    }
}
impl Sub for Felt252 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self(self.0 - o.0)
    }
}
impl Mul for Felt252 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self(self.0 * o.0)
    }
}
impl Neg for Felt252 {
    type Output = Self;
    fn neg(self) -> Self {
        Self(-self.0)
    }
}
