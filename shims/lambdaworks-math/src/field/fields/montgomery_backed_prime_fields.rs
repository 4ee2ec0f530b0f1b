use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsField, IsPrimeField};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::{UnsignedInteger, U256, U384};
use crate::unsigned_integer::montgomery::MontgomeryAlgorithms;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type U384PrimeField<M> = MontgomeryBackendPrimeField<M, 6>;
pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M, 4>;

pub trait IsModulus<U>: Debug + Clone + Send + Sync + 'static {
    const MODULUS: U;
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct MontgomeryBackendPrimeField<M, const NUM_LIMBS: usize> {
    phantom: PhantomData<M>,
}

impl<M, const N: usize> MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    pub const R2: UnsignedInteger<N> = Self::compute_r2(&M::MODULUS);
    pub const MU: u64 = Self::compute_mu(&M::MODULUS);
    pub const ZERO: UnsignedInteger<N> = UnsignedInteger::zero();
    pub const ONE: UnsignedInteger<N> =
        MontgomeryAlgorithms::cios(&UnsignedInteger::from_u64(1), &Self::R2, &M::MODULUS, &Self::MU);

    /// -q^{-1} mod 2^64
    const fn compute_mu(modulus: &UnsignedInteger<N>) -> u64 {
        let q = modulus.limbs[N - 1];
        let mut inv = 1u64;
        let mut i = 0;
        while i < 6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(q.wrapping_mul(inv)));
            i += 1;
        }
        inv.wrapping_neg()
    }

    /// 2^(2*64*N) mod q by repeated doubling.
    const fn compute_r2(modulus: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let mut c = UnsignedInteger::from_u64(1);
        let mut i = 0;
        while i < 2 * 64 * N {
            let (d, carry) = UnsignedInteger::add(&c, &c);
            c = d;
            if carry || UnsignedInteger::const_le(modulus, &c) {
                c = UnsignedInteger::sub(&c, modulus).0;
            }
            i += 1;
        }
        c
    }
}

impl<M, const N: usize> IsField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    type BaseType = UnsignedInteger<N>;

    #[inline(always)]
    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (sum, overflow) = UnsignedInteger::add(a, b);
        if overflow || UnsignedInteger::const_le(&M::MODULUS, &sum) {
            UnsignedInteger::sub(&sum, &M::MODULUS).0
        } else {
            sum
        }
    }
    #[inline(always)]
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        MontgomeryAlgorithms::cios(a, b, &M::MODULUS, &Self::MU)
    }
    #[inline(always)]
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (diff, borrow) = UnsignedInteger::sub(a, b);
        if borrow {
            UnsignedInteger::add(&diff, &M::MODULUS).0
        } else {
            diff
        }
    }
    fn neg(a: &Self::BaseType) -> Self::BaseType {
        if *a == Self::ZERO {
            *a
        } else {
            UnsignedInteger::sub(&M::MODULUS, a).0
        }
    }
    fn inv(a: &Self::BaseType) -> Self::BaseType {
        if *a == Self::ZERO {
            panic!("Division by zero error.")
        }
        // Fermat: a^(q-2)
        let e = UnsignedInteger::sub(&M::MODULUS, &UnsignedInteger::from_u64(2)).0;
        Self::pow(a, e)
    }
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool {
        a == b
    }
    fn zero() -> Self::BaseType {
        Self::ZERO
    }
    fn one() -> Self::BaseType {
        Self::ONE
    }
    fn from_u64(x: u64) -> Self::BaseType {
        MontgomeryAlgorithms::cios(&UnsignedInteger::from_u64(x), &Self::R2, &M::MODULUS, &Self::MU)
    }
    fn from_base_type(x: Self::BaseType) -> Self::BaseType {
        MontgomeryAlgorithms::cios(&x, &Self::R2, &M::MODULUS, &Self::MU)
    }
}

impl<M, const N: usize> IsPrimeField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    type RepresentativeType = UnsignedInteger<N>;

    fn representative(x: &Self::BaseType) -> Self::RepresentativeType {
        MontgomeryAlgorithms::cios(x, &UnsignedInteger::from_u64(1), &M::MODULUS, &Self::MU)
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError> {
        let integer = UnsignedInteger::<N>::from_hex(hex_string)?;
        Ok(Self::from_base_type(integer))
    }
    fn modulus_minus_one() -> Self::RepresentativeType {
        UnsignedInteger::sub(&M::MODULUS, &UnsignedInteger::from_u64(1)).0
    }
}

impl<M, const N: usize> ByteConversion for FieldElement<MontgomeryBackendPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    fn to_bytes_be(&self) -> Vec<u8> {
        ByteConversion::to_bytes_be(&self.representative())
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        ByteConversion::to_bytes_le(&self.representative())
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(<UnsignedInteger<N> as ByteConversion>::from_bytes_be(bytes)?))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(<UnsignedInteger<N> as ByteConversion>::from_bytes_le(bytes)?))
    }
}

#[allow(dead_code)]
fn _assert_types(_: U256, _: U384) {}
