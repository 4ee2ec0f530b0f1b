//! Generators, reference models and the independent (cheating) prover shared by the checks.
#![allow(clippy::op_ref, clippy::type_complexity, clippy::too_many_arguments, clippy::needless_range_loop)]
pub mod adv;
pub mod cairo;
pub mod cairo_air;
pub mod cairo_faults;
pub mod genair;
pub mod mutate;
pub mod programs;
pub mod refver;
pub mod sys;

pub use engine::{ensure, fail, guard, Check, Ctx, Fail, Res, Src};
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;

pub type F = Stark252PrimeField;
pub type FE = FieldElement<F>;

use lambdaworks_math::traits::ByteConversion;

/// Field element biased towards small values and values near the modulus.
pub fn fe(src: &mut Src) -> FE {
    match src.upto(7) {
        0 => FE::from(src.upto(3)),
        1 => FE::zero() - FE::from(src.range(1, 3)),
        2 => FE::from(src.edgy_u64()),
        _ => fe_uniform(src),
    }
}

pub fn fe_uniform(src: &mut Src) -> FE {
    let mut b = src.arr32();
    b[0] &= 0x07;
    FE::from_bytes_be(&b).unwrap()
}

pub fn fe_nonzero(src: &mut Src) -> FE {
    let v = fe(src);
    if v == FE::zero() {
        FE::one()
    } else {
        v
    }
}

/// A value different from `old`.
pub fn fe_other(src: &mut Src, old: &FE) -> FE {
    let v = match src.upto(5) {
        0 => old + FE::one(),
        1 => FE::zero() - old,
        2 => FE::zero(),
        3 => {
            // one byte differs, often the first or the last one
            let mut b = old.to_bytes_be();
            let i = match src.upto(2) {
                0 => 0,
                1 => 31,
                _ => src.usize(0, 31),
            };
            b[i] ^= 1 << src.upto(if i == 0 { 2 } else { 7 });
            FE::from_bytes_be(&b).unwrap()
        }
        4 => old + FE::from(2).pow(src.upto(251)),
        _ => fe_uniform(src),
    };
    if &v == old {
        old + FE::one()
    } else {
        v
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn rows(t: &lambdaworks_stark::starks::trace::TraceTable<F>) -> Vec<Vec<FE>> {
    t.table.chunks(t.n_cols).map(|r| r.to_vec()).collect()
}

pub fn short(v: &FE) -> String {
    let s = v.to_string();
    if s.len() > 18 {
        format!("{}..", &s[..16])
    } else {
        s
    }
}

/// Independent proof-of-work measure (trailing zero bits of the first eight bytes, big endian).
pub fn pow_bits(challenge: &[u8; 32], nonce: u64) -> u32 {
    use sha3::{Digest, Keccak256};
    let mut h = Keccak256::new();
    h.update(challenge);
    h.update(nonce.to_le_bytes());
    let d = h.finalize();
    u64::from_be_bytes(d[..8].try_into().unwrap()).trailing_zeros()
}

/// Some column of the trace is not constant, so openings depend on the position and the domain.
pub fn varies(t: &lambdaworks_stark::starks::trace::TraceTable<F>) -> bool {
    let r = rows(t);
    r.iter().any(|x| x != &r[0])
}
