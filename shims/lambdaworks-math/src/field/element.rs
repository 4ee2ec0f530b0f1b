use super::traits::{IsField, IsPrimeField, LegendreSymbol};
use crate::errors::CreationError;
use crate::unsigned_integer::element::UnsignedInteger;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> Debug for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("FieldElement").field("value", &self.value).finish()
    }
}
impl<F: IsField> Clone for FieldElement<F> {
    #[inline]
    fn clone(&self) -> Self {
        Self { value: self.value.clone() }
    }
}
impl<F: IsField> Copy for FieldElement<F> where F::BaseType: Copy {}
impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self { value: F::zero() }
    }
}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}
impl<F: IsField> Hash for FieldElement<F> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.value.hash(state)
    }
}

impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self { value: F::from_base_type(value.clone()) }
    }
}
impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self { value: F::from_u64(value) }
    }
}

macro_rules! bin {
    ($tr:ident, $m:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$m(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$m(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$m(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$m(&self.value, &rhs.value) }
            }
        }
    };
}
bin!(Add, add);
bin!(Sub, sub);
bin!(Mul, mul);
bin!(Div, div);

macro_rules! assign {
    ($tr:ident, $m:ident, $op:ident) => {
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            fn $m(&mut self, rhs: FieldElement<F>) {
                self.value = F::$op(&self.value, &rhs.value);
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            fn $m(&mut self, rhs: &FieldElement<F>) {
                self.value = F::$op(&self.value, &rhs.value);
            }
        }
    };
}
assign!(AddAssign, add_assign, add);
assign!(SubAssign, sub_assign, sub);
assign!(MulAssign, mul_assign, mul);

impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        FieldElement { value: F::neg(&self.value) }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        -&self
    }
}
impl<F: IsField> Sum<FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: IsField> Sum<&'a FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = &'a FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: IsField> Product<FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = FieldElement<F>>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}

impl<F: IsField> FieldElement<F> {
    pub fn new(value: F::BaseType) -> Self {
        Self { value: F::from_base_type(value) }
    }
    /// Creates an element from an already reduced/encoded base type.
    pub fn from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    pub fn value(&self) -> &F::BaseType {
        &self.value
    }
    pub fn inv(&self) -> Self {
        Self { value: F::inv(&self.value) }
    }
    pub fn square(&self) -> Self {
        Self { value: F::square(&self.value) }
    }
    pub fn double(&self) -> Self {
        Self { value: F::double(&self.value) }
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exponent: T) -> Self {
        Self { value: F::pow(&self.value, exponent) }
    }
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
    /// Montgomery's trick. Panics when some element is zero, as upstream does.
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        if numbers.is_empty() {
            return;
        }
        let count = numbers.len();
        let mut prod_prefix = Vec::with_capacity(count);
        prod_prefix.push(numbers[0].clone());
        for i in 1..count {
            let p = &prod_prefix[i - 1] * &numbers[i];
            prod_prefix.push(p);
        }
        let mut bi_inv = prod_prefix[count - 1].inv();
        for i in (1..count).rev() {
            let ai_inv = &bi_inv * &prod_prefix[i - 1];
            bi_inv = &bi_inv * &numbers[i];
            numbers[i] = ai_inv;
        }
        numbers[0] = bi_inv;
    }
}

impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(&self.value)
    }
    pub fn legendre_symbol(&self) -> LegendreSymbol {
        F::legendre_symbol(&self.value)
    }
    pub fn from_hex(hex_string: &str) -> Result<Self, CreationError> {
        Ok(Self { value: F::from_hex(hex_string)? })
    }
}

impl<F: IsPrimeField> Display for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.representative())
    }
}

impl<F, const N: usize> FieldElement<F>
where
    F: IsField<BaseType = UnsignedInteger<N>>,
{
    /// Creates an element from a hexadecimal string; panics on malformed input.
    pub fn from_hex_unchecked(hex: &str) -> Self {
        Self { value: F::from_base_type(UnsignedInteger::from_hex_unchecked(hex)) }
    }
}
