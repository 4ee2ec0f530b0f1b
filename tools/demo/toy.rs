//! A small table-driven constraint system and helpers for the demonstrations.
#![allow(dead_code)]
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::transcript::transcript_to_field;

pub type F = Stark252PrimeField;
pub type FE = FieldElement<F>;

/// The sum of coeff * product of cells (frame row, column).
#[derive(Clone)]
pub struct Tr {
    pub degree: usize,
    pub exempt: usize,
    pub terms: Vec<(FE, Vec<(usize, usize)>)>,
}

/// Transitions, boundaries and (optionally) one auxiliary column: the running product
/// of (first column + challenge), constrained in every row but the last.
#[derive(Clone)]
pub struct Spec {
    pub cols: usize,
    pub offsets: Vec<usize>,
    pub trans: Vec<Tr>,
    pub bounds: Vec<(usize, usize, FE)>,
    pub aux: bool,
    /// composition degree bound, in trace lengths
    pub bound: usize,
}

#[derive(Clone)]
pub struct Toy {
    ctx: AirContext,
    n: usize,
    spec: Spec,
}

impl AIR for Toy {
    type Field = F;
    type RAPChallenges = FE;
    type PublicInputs = Spec;
    fn new(n: usize, spec: &Spec, o: &ProofOptions) -> Self {
        let mut degrees: Vec<usize> = spec.trans.iter().map(|t| t.degree).collect();
        let mut exempt: Vec<usize> = spec.trans.iter().map(|t| t.exempt).collect();
        if spec.aux {
            degrees.push(2);
            exempt.push(1);
        }
        let mut distinct: Vec<usize> = exempt.iter().copied().filter(|e| *e > 0).collect();
        distinct.sort();
        distinct.dedup();
        let ctx = AirContext {
            proof_options: o.clone(),
            trace_columns: spec.cols + spec.aux as usize,
            num_transition_constraints: degrees.len(),
            transition_degrees: degrees,
            transition_exemptions: exempt,
            transition_offsets: spec.offsets.clone(),
            num_transition_exemptions: distinct.len(),
        };
        Toy { ctx, n, spec: spec.clone() }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, r: &FE) -> TraceTable<F> {
        if !self.spec.aux {
            return TraceTable::empty();
        }
        let mut p = FE::one();
        let mut col = vec![];
        for i in 0..main.n_rows() {
            col.push(p.clone());
            p = p * (main.get(i, 0) + r);
        }
        TraceTable::new_from_cols(&[col])
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> FE {
        if self.spec.aux {
            transcript_to_field(t)
        } else {
            FE::zero()
        }
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.spec.aux as usize
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.spec.bound * self.n
    }
    fn compute_transition(&self, f: &Frame<F>, r: &FE) -> Vec<FE> {
        let mut out: Vec<FE> = self
            .spec
            .trans
            .iter()
            .map(|t| {
                let mut s = FE::zero();
                for (c, cells) in &t.terms {
                    let mut p = c.clone();
                    for (row, col) in cells {
                        p = p * &f.get_row(*row)[*col];
                    }
                    s = s + p;
                }
                s
            })
            .collect();
        if self.spec.aux {
            let a = self.spec.cols;
            out.push(f.get_row(1)[a].clone() - &f.get_row(0)[a] * (f.get_row(0)[0].clone() + r));
        }
        out
    }
    fn boundary_constraints(&self, _: &FE) -> BoundaryConstraints<F> {
        let mut b: Vec<_> = self.spec.bounds.iter().map(|(c, s, v)| BoundaryConstraint::new(*c, *s, v.clone())).collect();
        if self.spec.aux {
            b.push(BoundaryConstraint::new(self.spec.cols, 0, FE::one()));
        }
        BoundaryConstraints::from_constraints(b)
    }
    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &Spec {
        &self.spec
    }
}

pub fn options(blowup: u8, queries: usize, offset: u64, grinding: u8) -> ProofOptions {
    ProofOptions { blowup_factor: blowup, fri_number_of_queries: queries, coset_offset: offset, grinding_factor: grinding }
}

pub fn prove(cols: &[Vec<FE>], spec: &Spec, o: &ProofOptions) -> StarkProof<F> {
    lambdaworks_stark::starks::prover::prove::<F, Toy>(&TraceTable::new_from_cols(cols), spec, o).unwrap()
}

pub fn verify(p: &StarkProof<F>, spec: &Spec, o: &ProofOptions) -> bool {
    lambdaworks_stark::starks::verifier::verify::<F, Toy>(p, spec, o)
}

/// x' = x*x + 1, the sample everything else is made of
pub fn square_spec(exempt: usize) -> Spec {
    Spec {
        cols: 1,
        offsets: vec![0, 1],
        trans: vec![Tr {
            degree: 2,
            exempt,
            terms: vec![(FE::one(), vec![(1, 0)]), (FE::zero() - FE::one(), vec![(0, 0), (0, 0)]), (FE::zero() - FE::one(), vec![])],
        }],
        bounds: vec![(0, 0, FE::from(3u64))],
        aux: false,
        bound: 2,
    }
}

pub fn square_trace(n: usize) -> Vec<FE> {
    let mut v = vec![FE::from(3u64)];
    while v.len() < n {
        let x = v.last().unwrap().clone();
        v.push(&x * &x + FE::one());
    }
    v
}

pub fn copy(p: &StarkProof<F>) -> StarkProof<F> {
    use lambdaworks_math::traits::{Deserializable, Serializable};
    StarkProof::deserialize(&p.serialize()).unwrap()
}

/// Whether `f` returns without panicking.
pub fn survives<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
