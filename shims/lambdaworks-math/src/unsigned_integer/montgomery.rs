use super::element::UnsignedInteger;

pub struct MontgomeryAlgorithms;

impl MontgomeryAlgorithms {
    /// Coarsely integrated operand scanning; result reduced below `q`.
    #[inline(always)]
    pub const fn cios<const N: usize>(
        a: &UnsignedInteger<N>,
        b: &UnsignedInteger<N>,
        q: &UnsignedInteger<N>,
        mu: &u64,
    ) -> UnsignedInteger<N> {
        let mut t = [0u64; N];
        let mut t_hi = 0u64;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let ai = a.limbs[i] as u128;
            // t += a_i * b  (i runs from the least significant limb)
            let mut c = 0u128;
            let mut j = N;
            while j > 0 {
                j -= 1;
                let cs = t[j] as u128 + ai * (b.limbs[j] as u128) + c;
                t[j] = cs as u64;
                c = cs >> 64;
            }
            let cs = t_hi as u128 + c;
            t_hi = cs as u64;
            let t_hi2 = (cs >> 64) as u64;
            let m = t[N - 1].wrapping_mul(*mu) as u128;
            let mut c = (t[N - 1] as u128 + m * (q.limbs[N - 1] as u128)) >> 64;
            let mut j = N - 1;
            while j > 0 {
                j -= 1;
                let cs = t[j] as u128 + m * (q.limbs[j] as u128) + c;
                c = cs >> 64;
                t[j + 1] = cs as u64;
            }
            let cs = t_hi as u128 + c;
            t[0] = cs as u64;
            t_hi = t_hi2 + (cs >> 64) as u64;
        }
        let mut r = UnsignedInteger { limbs: t };
        if t_hi > 0 || UnsignedInteger::const_le(q, &r) {
            r = UnsignedInteger::sub(&r, q).0;
        }
        r
    }
}
