use super::{element::FieldElement, errors::FieldError};
use crate::errors::CreationError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RootsConfig {
    Natural,
    NaturalInversed,
    BitReverse,
    BitReverseInversed,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum LegendreSymbol {
    MinusOne,
    Zero,
    One,
}

pub trait IsField: Debug + Clone + Send + Sync + 'static {
    type BaseType: Clone + Debug + Unpin + Send + Sync + Hash;

    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn double(a: &Self::BaseType) -> Self::BaseType {
        Self::add(a, a)
    }
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn square(a: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, a)
    }
    fn pow<T: IsUnsignedInteger>(a: &Self::BaseType, mut exponent: T) -> Self::BaseType {
        let zero = T::from(0);
        let one = T::from(1);
        let mut base = a.clone();
        let mut result = Self::one();
        while exponent != zero {
            if exponent & one == one {
                result = Self::mul(&result, &base);
            }
            exponent = exponent >> 1;
            if exponent != zero {
                base = Self::square(&base);
            }
        }
        result
    }
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn neg(a: &Self::BaseType) -> Self::BaseType;
    /// Panics when `a` is zero, as the pinned upstream revision does.
    fn inv(a: &Self::BaseType) -> Self::BaseType;
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool;
    fn zero() -> Self::BaseType {
        Self::from_u64(0)
    }
    fn one() -> Self::BaseType;
    fn from_u64(x: u64) -> Self::BaseType;
    fn from_base_type(x: Self::BaseType) -> Self::BaseType;
}

pub trait IsPrimeField: IsField {
    type RepresentativeType: IsUnsignedInteger;

    fn representative(a: &Self::BaseType) -> Self::RepresentativeType;
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError>;

    fn modulus_minus_one() -> Self::RepresentativeType {
        Self::representative(&Self::neg(&Self::one()))
    }

    /// Bits needed for the largest element.
    fn field_bit_size() -> usize {
        let zero = Self::RepresentativeType::from(0);
        let mut v = Self::modulus_minus_one();
        let mut n = 0;
        while v != zero {
            v >>= 1;
            n += 1;
        }
        n
    }

    fn legendre_symbol(a: &Self::BaseType) -> LegendreSymbol {
        let symbol = Self::pow(a, Self::modulus_minus_one() >> 1);
        if Self::eq(&symbol, &Self::zero()) {
            LegendreSymbol::Zero
        } else if Self::eq(&symbol, &Self::one()) {
            LegendreSymbol::One
        } else {
            LegendreSymbol::MinusOne
        }
    }
}

pub trait IsFFTField: IsPrimeField {
    const TWO_ADICITY: u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: Self::BaseType;

    fn field_name() -> &'static str {
        ""
    }

    fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FieldError> {
        let two_adic_primitive_root_of_unity =
            FieldElement::new(Self::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY);
        if order == 0 {
            return Ok(FieldElement::one());
        }
        if order > Self::TWO_ADICITY {
            return Err(FieldError::RootOfUnityError(order));
        }
        let log_power = Self::TWO_ADICITY - order;
        Ok((0..log_power).fold(two_adic_primitive_root_of_unity, |acc, _| acc.square()))
    }
}
