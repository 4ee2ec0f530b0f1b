//! Systems under test: a constraint system with a satisfying trace behind one
//! object-safe interface (generated systems and the crate's example AIRs).
use crate::adv::{self, Cheat, Out};
use crate::genair::{self, Cfg, GenAir};
use crate::refver::{self, Broken};
use crate::{cairo, fe, fe_other, short, F, FE};
use engine::{guard, Src};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::{
    context::AirContext,
    example::{
        dummy_air::{dummy_trace, DummyAIR},
        fibonacci_2_columns::{fibonacci_trace_2_columns, Fibonacci2ColsAIR},
        fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
        quadratic_air::{quadratic_trace, QuadraticAIR, QuadraticPublicInputs},
        simple_fibonacci::{fibonacci_trace, FibonacciAIR, FibonacciPublicInputs},
    },
    proof::{options::ProofOptions, stark::StarkProof},
    prover,
    trace::TraceTable,
    traits::AIR,
    verifier,
};

pub type Proof = StarkProof<F>;

pub trait System: Send + Sync {
    fn kind(&self) -> &'static str;
    fn describe(&self) -> String;
    fn n(&self) -> usize;
    fn main_width(&self) -> usize;
    fn min_blowup(&self) -> usize;
    fn context(&self, opts: &ProofOptions) -> AirContext;
    fn aux_width(&self, opts: &ProofOptions) -> usize;
    fn number_of_boundary_constraints(&self, opts: &ProofOptions) -> usize;
    /// Ok(None): refused with an error; Err: crashed.
    fn prove(&self, opts: &ProofOptions) -> Result<Option<Proof>, String>;
    fn verify(&self, proof: &Proof, opts: &ProofOptions) -> Result<bool, String>;
    /// What the independent verifier says.
    fn reference(&self, proof: &Proof, opts: &ProofOptions) -> Result<Result<(), Broken>, String>;
    fn adversary(&self, src: &mut Src, opts: &ProofOptions, cheat: &Cheat) -> Option<Out>;
    fn table(&self) -> &TraceTable<F>;
    /// Same statement, another main trace.
    fn with_table(&self, t: TraceTable<F>) -> Box<dyn System>;
    /// A different false or true statement for the same kind of system.
    fn other_statement(&self, src: &mut Src) -> Option<(Box<dyn System>, String)>;
    /// The verdict of the trace validator on this trace, and what is violated when
    /// every constraint is evaluated on every row here.
    #[cfg(debug_assertions)]
    fn judge(&self, opts: &ProofOptions, seed: &[u8]) -> Result<(bool, Vec<String>), String>;
    /// n for which a trace of the same system can be regenerated
    fn as_generated(&self) -> Option<&genair::Spec> {
        None
    }
}

type Alter<A> = fn(&mut Src, &<A as AIR>::PublicInputs) -> (<A as AIR>::PublicInputs, String);

pub struct Sys<A: AIR<Field = F>> {
    pub kind: &'static str,
    pub desc: String,
    pub pubs: A::PublicInputs,
    pub table: TraceTable<F>,
    pub min_blowup: usize,
    pub alter: Option<Alter<A>>,
}

impl<A: AIR<Field = F>> Sys<A>
where
    A::PublicInputs: 'static,
{
    /// The Cairo machine has entry points of its own.
    fn cairo(&self) -> Option<&PublicInputs> {
        (&self.pubs as &dyn std::any::Any).downcast_ref()
    }
}

impl<A> System for Sys<A>
where
    A: AIR<Field = F> + Send + Sync + 'static,
    A::PublicInputs: Clone + Send + Sync + 'static,
    A::RAPChallenges: Send + Sync,
{
    fn kind(&self) -> &'static str {
        self.kind
    }
    fn describe(&self) -> String {
        self.desc.clone()
    }
    fn n(&self) -> usize {
        self.table.n_rows()
    }
    fn main_width(&self) -> usize {
        self.table.n_cols
    }
    fn min_blowup(&self) -> usize {
        self.min_blowup
    }
    fn context(&self, opts: &ProofOptions) -> AirContext {
        A::new(self.n(), &self.pubs, opts).context().clone()
    }
    fn aux_width(&self, opts: &ProofOptions) -> usize {
        A::new(self.n(), &self.pubs, opts).number_auxiliary_rap_columns()
    }
    fn number_of_boundary_constraints(&self, opts: &ProofOptions) -> usize {
        let air = A::new(self.n(), &self.pubs, opts);
        let mut t = lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript::new();
        let c = air.build_rap_challenges(&mut t);
        air.boundary_constraints(&c).constraints.len()
    }
    fn prove(&self, opts: &ProofOptions) -> Result<Option<Proof>, String> {
        if let Some(p) = self.cairo() {
            return guard(|| generate_cairo_proof(&self.table, p, opts).ok());
        }
        guard(|| prover::prove::<F, A>(&self.table, &self.pubs, opts).ok())
    }
    fn verify(&self, proof: &Proof, opts: &ProofOptions) -> Result<bool, String> {
        if let Some(p) = self.cairo() {
            return guard(|| verify_cairo_proof(proof, p, opts));
        }
        guard(|| verifier::verify::<F, A>(proof, &self.pubs, opts))
    }
    fn reference(&self, proof: &Proof, opts: &ProofOptions) -> Result<Result<(), Broken>, String> {
        guard(|| refver::verify::<A>(proof, &self.pubs, opts))
    }
    fn adversary(&self, src: &mut Src, opts: &ProofOptions, cheat: &Cheat) -> Option<Out> {
        adv::prove::<A>(src, &self.table, &self.pubs, opts, cheat)
    }
    #[cfg(debug_assertions)]
    fn judge(&self, opts: &ProofOptions, seed: &[u8]) -> Result<(bool, Vec<String>), String> {
        use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
        let air = A::new(self.n(), &self.pubs, opts);
        let mut t = lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript::new();
        t.append(seed);
        let ch = air.build_rap_challenges(&mut t);
        let mut full = crate::rows(&self.table);
        let aux = guard(|| air.build_auxiliary_trace(&self.table, &ch))?;
        if aux.n_cols > 0 {
            for (r, a) in full.iter_mut().zip(crate::rows(&aux)) {
                r.extend(a);
            }
        }
        let v = violated(&air, &full, &ch);
        Ok((verdict(&air, &full, &ch)?, v))
    }
    fn table(&self) -> &TraceTable<F> {
        &self.table
    }
    fn with_table(&self, table: TraceTable<F>) -> Box<dyn System> {
        Box::new(Sys::<A> {
            kind: self.kind,
            desc: self.desc.clone(),
            pubs: self.pubs.clone(),
            table,
            min_blowup: self.min_blowup,
            alter: self.alter,
        })
    }
    fn other_statement(&self, src: &mut Src) -> Option<(Box<dyn System>, String)> {
        let (pubs, what) = self.alter?(src, &self.pubs);
        Some((
            Box::new(Sys::<A> {
                kind: self.kind,
                desc: self.desc.clone(),
                pubs,
                table: TraceTable::new(self.table.table.clone(), self.table.n_cols),
                min_blowup: self.min_blowup,
                alter: self.alter,
            }),
            what,
        ))
    }
}

/// Every boundary constraint, and every transition constraint on every row that is not exempt.
pub fn violated<A: AIR<Field = F>>(air: &A, full: &[Vec<FE>], ch: &A::RAPChallenges) -> Vec<String> {
    let n = full.len();
    let mut out = Vec::new();
    for b in &air.boundary_constraints(ch).constraints {
        if full[b.step][b.col] != b.value {
            out.push(format!("boundary ({},{})", b.step, b.col));
        }
    }
    let ctx = air.context();
    for i in 0..n {
        let data: Vec<FE> = ctx.transition_offsets.iter().flat_map(|o| full[(i + o) % n].clone()).collect();
        let e = air.compute_transition(&lambdaworks_stark::starks::frame::Frame::new(data, full[0].len()), ch);
        for (k, x) in e.iter().enumerate() {
            if i + ctx.transition_exemptions[k] < n && *x != FE::zero() {
                out.push(format!("transition {k} row {i}"));
            }
        }
    }
    out
}

/// What the validator says about the trace.
#[cfg(debug_assertions)]
pub fn verdict<A: AIR<Field = F>>(air: &A, full: &[Vec<FE>], ch: &A::RAPChallenges) -> Result<bool, String> {
    use lambdaworks_math::{fft::polynomial::FFTPoly, polynomial::Polynomial};
    use lambdaworks_stark::starks::{debug::validate_trace, domain::Domain};
    let polys: Vec<Polynomial<FE>> = (0..full[0].len())
        .map(|k| {
            let col: Vec<FE> = full.iter().map(|r| r[k].clone()).collect();
            Polynomial::interpolate_fft(&col).unwrap()
        })
        .collect();
    guard(|| validate_trace(air, &polys, &Domain::new(air), ch))
}

pub fn clone_table(t: &TraceTable<F>) -> TraceTable<F> {
    TraceTable::new(t.table.clone(), t.n_cols)
}

pub fn alter_spec(src: &mut Src, p: &genair::Pub) -> (genair::Pub, String) {
    let mut s = (**p).clone();
    let what;
    // the values of the boundary constraints are the public inputs of a generated system
    let i = src.usize(0, s.bounds.len() - 1);
    let old = s.bounds[i].value.clone();
    s.bounds[i].value = fe_other(src, &old);
    what = format!("boundary value {i} of column {} step {} altered", s.bounds[i].col, s.bounds[i].step);
    (std::sync::Arc::new(s), what)
}

/// The Cairo machine on a small valid execution.
pub fn cairo(src: &mut Src) -> Option<Sys<CairoAIR>> {
    let run = cairo::generate(src, &cairo::Cfg { max_steps: 20, max_program: 30, ..cairo::Cfg::default() });
    let mut pubs = run.public();
    let table = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)).ok()?;
    Some(Sys { kind: "cairo", desc: format!("CairoAIR {}", run.describe()), pubs, table, min_blowup: 2, alter: None })
}

/// The Cairo machine, or something else when the execution has no trace.
pub fn cairo_or(src: &mut Src, cfg: &Cfg) -> Box<dyn System> {
    match cairo(src) {
        Some(s) => Box::new(s),
        None => random(src, cfg),
    }
}

pub fn generated(src: &mut Src, cfg: &Cfg) -> Sys<GenAir> {
    genair::gen(src, cfg).sys()
}

/// Large in one way or another.
pub fn large(src: &mut Src, max_log: usize) -> Box<dyn System> {
    if src.chance(1, 4) {
        let which = src.upto(4);
        let log = src.usize(6, max_log);
        example_n(src, which, log)
    } else {
        Box::new(genair::large(src, max_log).sys())
    }
}

pub fn example(src: &mut Src, max_log: usize) -> Box<dyn System> {
    let which = src.upto(4);
    example_of(src, which, max_log)
}

pub fn example_of(src: &mut Src, which: u64, max_log: usize) -> Box<dyn System> {
    let log = src.usize(2, max_log);
    example_n(src, which, log)
}

pub fn example_n(src: &mut Src, which: u64, log: usize) -> Box<dyn System> {
    let n = 1usize << log;
    let (a, b) = (fe(src), fe(src));
    match which {
        0 => Box::new(Sys::<FibonacciAIR<F>> {
            kind: "fibonacci",
            desc: format!("FibonacciAIR n={n} a0={} a1={}", short(&a), short(&b)),
            table: fibonacci_trace([a.clone(), b.clone()], n),
            pubs: FibonacciPublicInputs { a0: a, a1: b },
            min_blowup: 2,
            alter: Some(|src, p| {
                let mut q = p.clone();
                if src.bool() {
                    q.a0 = fe_other(src, &p.a0);
                    (q, "a0 altered".into())
                } else {
                    q.a1 = fe_other(src, &p.a1);
                    (q, "a1 altered".into())
                }
            }),
        }),
        1 => Box::new(Sys::<Fibonacci2ColsAIR<F>> {
            kind: "fibonacci 2 columns",
            desc: format!("Fibonacci2ColsAIR n={n} a0={} a1={}", short(&a), short(&b)),
            table: fibonacci_trace_2_columns([a.clone(), b.clone()], n),
            pubs: FibonacciPublicInputs { a0: a, a1: b },
            min_blowup: 2,
            alter: Some(|src, p| {
                let mut q = p.clone();
                if src.bool() {
                    q.a0 = fe_other(src, &p.a0);
                    (q, "a0 altered".into())
                } else {
                    q.a1 = fe_other(src, &p.a1);
                    (q, "a1 altered".into())
                }
            }),
        }),
        2 => Box::new(Sys::<QuadraticAIR<F>> {
            kind: "quadratic",
            desc: format!("QuadraticAIR n={n} a0={}", short(&a)),
            table: quadratic_trace(a.clone(), n),
            pubs: QuadraticPublicInputs { a0: a },
            min_blowup: 2,
            alter: Some(|src, p| {
                let mut q = p.clone();
                q.a0 = fe_other(src, &p.a0);
                (q, "a0 altered".into())
            }),
        }),
        3 => {
            let steps = src.usize(3, (1 << log) - 1);
            // the system fixes both initial values to one whatever its public inputs say (listed finding)
            let table = fibonacci_rap_trace([FE::one(), FE::one()], steps);
            Box::new(Sys::<FibonacciRAP<F>> {
                kind: "fibonacci rap",
                desc: format!("FibonacciRAP steps={steps} n={}", table.n_rows()),
                table,
                pubs: FibonacciRAPPublicInputs { steps, a0: FE::one(), a1: FE::one() },
                min_blowup: 2,
                alter: None,
            })
        }
        _ => Box::new(Sys::<DummyAIR> {
            kind: "dummy",
            desc: format!("DummyAIR n={n}"),
            table: dummy_trace(n),
            pubs: (),
            min_blowup: 2,
            alter: None,
        }),
    }
}

/// Mostly generated systems, sometimes an example AIR.
pub fn random(src: &mut Src, cfg: &Cfg) -> Box<dyn System> {
    if src.chance(1, 3) {
        example(src, cfg.max_log.max(3))
    } else {
        Box::new(generated(src, cfg))
    }
}

/// Options for a system of n rows; soundness error about 2^-bits when bits > 0.
pub fn options(src: &mut Src, n: usize, min_blowup: usize, bits: usize) -> ProofOptions {
    let mut choices: Vec<u8> = [2u8, 4, 8, 16].into_iter().filter(|b| *b as usize >= min_blowup).collect();
    if n * 16 > 600 {
        choices.retain(|b| *b <= 8);
    }
    if choices.is_empty() {
        choices.push(min_blowup as u8);
    }
    let blowup = *src.pick(&choices);
    let log = blowup.trailing_zeros() as usize;
    // security presets ask for up to about a hundred queries
    let many = src.chance(1, 16);
    let fri_number_of_queries = match (bits > 0, many) {
        (true, false) => bits.div_ceil(log) + src.usize(0, 4),
        (true, true) => bits.div_ceil(log) + src.usize(5, 130),
        (false, false) => src.usize(1, 24),
        (false, true) => src.usize(25, 150),
    };
    let coset_offset = match src.upto(3) {
        0 => 3,
        1 => src.range(2, 50),
        2 => src.edgy_u64().max(2),
        _ => 7,
    };
    // the shifted domain must avoid the trace domain
    let size = n * blowup as usize;
    let coset_offset = if FE::from(coset_offset).pow(size) == FE::one() { 3 } else { coset_offset };
    let most = if src.chance(1, 24) { 12 } else { 7 };
    let grinding_factor = if src.chance(1, 2) { 0 } else { src.upto(most) as u8 };
    ProofOptions { blowup_factor: blowup, fri_number_of_queries, coset_offset, grinding_factor }
}

pub fn options_for(src: &mut Src, s: &dyn System, bits: usize) -> ProofOptions {
    options(src, s.n(), s.min_blowup(), bits)
}
