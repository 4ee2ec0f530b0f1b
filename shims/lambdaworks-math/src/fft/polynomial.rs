use super::cpu::ops;
use super::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len =
            std::cmp::max(self.coeff_len(), domain_size).next_power_of_two() * blowup_factor;
        if self.coefficients().is_empty() {
            return Ok(vec![FieldElement::zero(); len]);
        }
        let mut coeffs = self.coefficients().to_vec();
        coeffs.resize(len, FieldElement::zero());
        ops::fft(&coeffs)
    }

    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        self.scale(offset).evaluate_fft(blowup_factor, domain_size)
    }

    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        Ok(Polynomial::new(&ops::ifft(fft_evals)?))
    }

    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let scaled = Polynomial::interpolate_fft(fft_evals)?;
        Ok(scaled.scale(&offset.inv()))
    }
}

/// Composition through FFT of sizes large enough for the product of degrees.
pub fn compose_fft<F: IsFFTField>(
    poly_1: &Polynomial<FieldElement<F>>,
    poly_2: &Polynomial<FieldElement<F>>,
) -> Polynomial<FieldElement<F>> {
    crate::polynomial::compose(poly_1, poly_2)
}
