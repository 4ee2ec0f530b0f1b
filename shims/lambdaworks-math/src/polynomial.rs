use crate::field::element::FieldElement;
use crate::field::traits::IsField;
use std::fmt;
use std::ops::{Add, Mul, Neg, Sub};

/// Univariate polynomial; coefficients in ascending order, no trailing zeros.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

#[derive(Debug, PartialEq, Eq)]
pub enum InterpolateError {
    UnequalLengths(usize, usize),
    NonUniqueXs,
}
impl fmt::Display for InterpolateError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            InterpolateError::UnequalLengths(x, y) => {
                write!(f, "xs and ys must be the same length. Got: {x} != {y}")
            }
            InterpolateError::NonUniqueXs => write!(f, "xs values should be unique."),
        }
    }
}
impl std::error::Error for InterpolateError {}

impl<F: IsField> Polynomial<FieldElement<F>> {
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        let zero = FieldElement::<F>::zero();
        let len = coefficients.iter().rposition(|c| *c != zero).map_or(0, |p| p + 1);
        Self { coefficients: coefficients[..len].to_vec() }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut coefficients = vec![FieldElement::zero(); degree];
        coefficients.push(coefficient);
        Self::new(&coefficients)
    }
    pub fn zero() -> Self {
        Self { coefficients: vec![] }
    }
    pub fn interpolate(
        xs: &[FieldElement<F>],
        ys: &[FieldElement<F>],
    ) -> Result<Self, InterpolateError> {
        if xs.len() != ys.len() {
            return Err(InterpolateError::UnequalLengths(xs.len(), ys.len()));
        }
        let mut result = Self::zero();
        for (i, (x, y)) in xs.iter().zip(ys).enumerate() {
            let mut num = Self::new_monomial(FieldElement::one(), 0);
            let mut den = FieldElement::<F>::one();
            for (j, xj) in xs.iter().enumerate() {
                if i != j {
                    if x == xj {
                        return Err(InterpolateError::NonUniqueXs);
                    }
                    num = num.mul_with_ref(&Self::new(&[-xj, FieldElement::one()]));
                    den = den * (x - xj);
                }
            }
            result = result + num * (y / &den);
        }
        Ok(result)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        self.coefficients.iter().rev().fold(FieldElement::zero(), |acc, c| acc * x + c)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        self.coefficients.len().saturating_sub(1)
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients.last().cloned().unwrap_or_else(FieldElement::zero)
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients().len()
    }
    pub fn pad_with_zero_coefficients_to_length(pa: &mut Self, n: usize) {
        pa.coefficients.resize(n, FieldElement::zero());
    }
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let mut pa = pa.clone();
        let mut pb = pb.clone();
        let n = pa.coefficients.len().max(pb.coefficients.len());
        Self::pad_with_zero_coefficients_to_length(&mut pa, n);
        Self::pad_with_zero_coefficients_to_length(&mut pb, n);
        (pa, pb)
    }
    /// Quotient by `x - b`, in place.
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            std::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut r = self.clone();
        r.ruffini_division_inplace(b);
        r
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        if dividend.coefficients.is_empty() {
            panic!("Division by zero polynomial");
        }
        let mut n = self;
        if n.coefficients.len() < dividend.coefficients.len() {
            return (Self::zero(), n);
        }
        let mut q = vec![FieldElement::zero(); n.coefficients.len() - dividend.coefficients.len() + 1];
        let lead_inv = dividend.leading_coefficient().inv();
        while !n.coefficients.is_empty() && n.coefficients.len() >= dividend.coefficients.len() {
            let shift = n.coefficients.len() - dividend.coefficients.len();
            let c = n.leading_coefficient() * &lead_inv;
            for (i, d) in dividend.coefficients.iter().enumerate() {
                n.coefficients[shift + i] = &n.coefficients[shift + i] - d * &c;
            }
            q[shift] = c;
            n = Self::new(&n.coefficients);
        }
        (Self::new(&q), n)
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.coefficients.is_empty() || factor.coefficients.is_empty() {
            return Self::zero();
        }
        let mut c =
            vec![FieldElement::zero(); self.coefficients.len() + factor.coefficients.len() - 1];
        for (i, a) in self.coefficients.iter().enumerate() {
            for (j, b) in factor.coefficients.iter().enumerate() {
                c[i + j] = &c[i + j] + a * b;
            }
        }
        Self::new(&c)
    }
    /// P(x) -> P(factor * x)
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut p = FieldElement::one();
        let c: Vec<_> = self
            .coefficients
            .iter()
            .map(|a| {
                let r = a * &p;
                p = &p * factor;
                r
            })
            .collect();
        Self::new(&c)
    }
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        let c: Vec<_> = self.coefficients.iter().map(|a| a * factor).collect();
        Self::new(&c)
    }
    /// P(x) = even(x^2) + x * odd(x^2)
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let even: Vec<_> = self.coefficients.iter().step_by(2).cloned().collect();
        let odd: Vec<_> = self.coefficients.iter().skip(1).step_by(2).cloned().collect();
        (Self::new(&even), Self::new(&odd))
    }
    pub fn break_in_parts(&self, number_of_parts: usize) -> Vec<Self> {
        (0..number_of_parts)
            .map(|i| {
                let c: Vec<_> =
                    self.coefficients.iter().skip(i).step_by(number_of_parts).cloned().collect();
                Self::new(&c)
            })
            .collect()
    }
    fn add_refs(a: &Self, b: &Self) -> Self {
        let (l, s) = if a.coefficients.len() >= b.coefficients.len() { (a, b) } else { (b, a) };
        let mut c = l.coefficients.clone();
        for (x, y) in c.iter_mut().zip(&s.coefficients) {
            *x = &*x + y;
        }
        Self::new(&c)
    }
    fn sub_refs(a: &Self, b: &Self) -> Self {
        Self::add_refs(a, &-b)
    }
}

impl<F: IsField> Neg for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        let c: Vec<_> = self.coefficients.iter().map(|x| -x).collect();
        Polynomial::new(&c)
    }
}
impl<F: IsField> Neg for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        -&self
    }
}

macro_rules! poly_ops {
    ($tr:ident, $m:ident, $f:expr) => {
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &Polynomial<FieldElement<F>>) -> Self::Output {
                $f(self, o)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: Polynomial<FieldElement<F>>) -> Self::Output {
                $f(&self, &o)
            }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &Polynomial<FieldElement<F>>) -> Self::Output {
                $f(&self, o)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: Polynomial<FieldElement<F>>) -> Self::Output {
                $f(self, &o)
            }
        }
    };
}
poly_ops!(Add, add, Polynomial::add_refs);
poly_ops!(Sub, sub, Polynomial::sub_refs);
poly_ops!(Mul, mul, Polynomial::mul_with_ref);

fn constant<F: IsField>(c: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    Polynomial::new(std::slice::from_ref(c))
}
fn pf_add<F: IsField>(p: &Polynomial<FieldElement<F>>, c: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    Polynomial::add_refs(p, &constant(c))
}
fn pf_sub<F: IsField>(p: &Polynomial<FieldElement<F>>, c: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    Polynomial::sub_refs(p, &constant(c))
}
fn pf_mul<F: IsField>(p: &Polynomial<FieldElement<F>>, c: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    p.scale_coeffs(c)
}
fn fp_sub<F: IsField>(p: &Polynomial<FieldElement<F>>, c: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    Polynomial::sub_refs(&constant(c), p)
}

macro_rules! poly_field_ops {
    ($tr:ident, $m:ident, $pf:ident, $fp:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &FieldElement<F>) -> Self::Output {
                $pf(self, o)
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: FieldElement<F>) -> Self::Output {
                $pf(&self, &o)
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &FieldElement<F>) -> Self::Output {
                $pf(&self, o)
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: FieldElement<F>) -> Self::Output {
                $pf(self, &o)
            }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for &FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &Polynomial<FieldElement<F>>) -> Self::Output {
                $fp(o, self)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: Polynomial<FieldElement<F>>) -> Self::Output {
                $fp(&o, &self)
            }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &Polynomial<FieldElement<F>>) -> Self::Output {
                $fp(o, &self)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for &FieldElement<F> {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: Polynomial<FieldElement<F>>) -> Self::Output {
                $fp(&o, self)
            }
        }
    };
}
poly_field_ops!(Add, add, pf_add, pf_add);
poly_field_ops!(Sub, sub, pf_sub, fp_sub);
poly_field_ops!(Mul, mul, pf_mul, pf_mul);

/// Polynomial composition p(q(x)).
pub fn compose<F: IsField>(
    poly_1: &Polynomial<FieldElement<F>>,
    poly_2: &Polynomial<FieldElement<F>>,
) -> Polynomial<FieldElement<F>> {
    poly_1
        .coefficients
        .iter()
        .rev()
        .fold(Polynomial::zero(), |acc, c| acc * poly_2 + c)
}
