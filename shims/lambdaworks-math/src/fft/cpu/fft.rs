use super::bit_reversing::in_place_bit_reverse_permute;
use crate::field::{element::FieldElement, traits::IsFFTField};

/// Radix-2 decimation in time; `root` is a primitive `input.len()`-th root of unity.
pub fn in_place_ntt<F: IsFFTField>(input: &mut [FieldElement<F>], root: &FieldElement<F>) {
    let n = input.len();
    in_place_bit_reverse_permute(input);
    let mut tw = Vec::with_capacity(n / 2);
    let mut w = FieldElement::<F>::one();
    for _ in 0..n / 2 {
        tw.push(w.clone());
        w = &w * root;
    }
    let mut len = 2;
    while len <= n {
        let stride = n / len;
        for start in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let v = &input[start + k + len / 2] * &tw[k * stride];
                let u = input[start + k].clone();
                input[start + k] = &u + &v;
                input[start + k + len / 2] = u - v;
            }
        }
        len *= 2;
    }
}
