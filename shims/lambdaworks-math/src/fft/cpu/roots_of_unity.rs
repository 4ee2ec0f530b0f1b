use super::bit_reversing::in_place_bit_reverse_permute;
use crate::fft::errors::FFTError;
use crate::field::{
    element::FieldElement,
    traits::{IsFFTField, RootsConfig},
};

pub fn get_powers_of_primitive_root<F: IsFFTField>(
    n: u64,
    count: usize,
    config: RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if count == 0 {
        return Ok(Vec::new());
    }
    let root = F::get_primitive_root_of_unity(n)?;
    let root = match config {
        RootsConfig::Natural | RootsConfig::BitReverse => root,
        _ => root.inv(),
    };
    let mut v = powers(&root, count, FieldElement::one());
    if matches!(config, RootsConfig::BitReverse | RootsConfig::BitReverseInversed) {
        in_place_bit_reverse_permute(&mut v);
    }
    Ok(v)
}

fn powers<F: IsFFTField>(
    root: &FieldElement<F>,
    count: usize,
    start: FieldElement<F>,
) -> Vec<FieldElement<F>> {
    let mut out = Vec::new();
    let mut x = start;
    for _ in 0..count {
        out.push(x.clone());
        x = &x * root;
    }
    out
}

/// `offset * w^i` for i in 0..count, w of order 2^n.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    Ok(powers(&root, count, offset.clone()))
}

pub fn get_twiddles<F: IsFFTField>(
    order: u64,
    config: RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if order > 63 {
        return Err(FFTError::OrderError(order));
    }
    get_powers_of_primitive_root(order, (1 << order) / 2, config)
}
