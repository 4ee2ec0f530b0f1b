use super::fft::in_place_ntt;
use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};

pub fn fft<F: IsFFTField>(input: &[FieldElement<F>]) -> Result<Vec<FieldElement<F>>, FFTError> {
    if !input.len().is_power_of_two() {
        return Err(FFTError::InputError(input.len()));
    }
    let root = F::get_primitive_root_of_unity(input.len().trailing_zeros() as u64)?;
    let mut r = input.to_vec();
    in_place_ntt(&mut r, &root);
    Ok(r)
}

pub fn ifft<F: IsFFTField>(input: &[FieldElement<F>]) -> Result<Vec<FieldElement<F>>, FFTError> {
    if !input.len().is_power_of_two() {
        return Err(FFTError::InputError(input.len()));
    }
    let root = F::get_primitive_root_of_unity(input.len().trailing_zeros() as u64)?;
    let mut r = input.to_vec();
    in_place_ntt(&mut r, &root.inv());
    let n_inv = FieldElement::<F>::from(input.len() as u64).inv();
    r.iter_mut().for_each(|x| *x = &*x * &n_inv);
    Ok(r)
}
