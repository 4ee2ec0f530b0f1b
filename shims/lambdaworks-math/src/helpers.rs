use crate::field::{element::FieldElement, traits::IsField};

/// Smallest power of two that is >= `n` (1 for 0).
pub fn next_power_of_two(n: u64) -> u64 {
    if n <= 1 {
        1
    } else {
        (u64::MAX >> (n - 1).leading_zeros()) + 1
    }
}

/// Pads every column with zeros up to the next power of two of its length.
pub fn resize_to_next_power_of_two<F: IsField>(trace_colums: &mut [Vec<FieldElement<F>>]) {
    trace_colums.iter_mut().for_each(|col| {
        let col_len = col.len() as u64;
        let next_power_of_two_len = next_power_of_two(col_len);
        col.resize(next_power_of_two_len as usize, FieldElement::<F>::zero())
    })
}
