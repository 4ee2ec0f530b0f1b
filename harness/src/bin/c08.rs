//! C08: verification is total.
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR, MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::example::fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::{prover, verifier};
use vh::genair::Cfg;
use vh::mutate::Shape;
use vh::sys::{Proof, System};
use vh::{cairo, mutate, sys, *};

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

/// A verdict, and memory in proportion to the proof: the verifier is given `weight` bytes.
fn verdict(weight: usize, ctx: &mut Ctx, d: &str, f: impl FnOnce() -> Result<bool, String>) -> Res {
    let (r, peak) = engine::alloc::measure(f);
    match r {
        Err(m) => fail("panic", format!("{m}: {d}")),
        Ok(v) => {
            ctx.label(if v { "accepted" } else { "rejected" });
            let bound = (64 << 20) + 64 * weight as u64;
            ensure!(peak <= bound, "memory", "{peak} bytes for {weight} bytes of input: {d}");
            Ok(())
        }
    }
}

fn steps(src: &mut Src, p: &mut Proof, other: &Proof) -> String {
    let k = src.usize(1, 3);
    (0..k)
        .map(|_| {
            if src.chance(1, 4) {
                let s = mutate::sites(p);
                if s.is_empty() {
                    return "nothing left".into();
                }
                let at = src.usize(0, s.len() - 1);
                mutate::alter(src, p, &s[at]);
                format!("alter {}", s[at].class())
            } else {
                mutate::restructure(src, p, other)
            }
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// What a decoder would hand to the verifier, if it accepts the bytes at all.
fn received(p: &Proof) -> Option<(Proof, usize)> {
    let b = guard(|| p.serialize()).ok()?;
    let q = guard(|| Proof::deserialize(&b)).ok()?.ok()?;
    Some((q, b.len()))
}

struct Base {
    proof: Proof,
    pubs: PublicInputs,
    opts: ProofOptions,
}

fn cairo_base(src: &mut Src) -> Option<Base> {
    let run = cairo::generate(src, &cairo::Cfg { max_steps: 12, max_program: 14, free_room: 60, max_room: 20, ..Default::default() });
    let mut pubs = run.public();
    let t = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)).ok()?;
    let opts = ProofOptions { blowup_factor: 2, fri_number_of_queries: src.usize(1, 3), coset_offset: 3, grinding_factor: 0 };
    let proof = guard(|| generate_cairo_proof(&t, &pubs, &opts)).ok()?.ok()?;
    Some(Base { proof, pubs, opts })
}

/// Public inputs near the given ones.
fn disturb(src: &mut Src, p: &mut PublicInputs) -> String {
    let mut what = Vec::new();
    for _ in 0..src.usize(0, 3) {
        match src.upto(9) {
            0 => {
                p.num_steps = if src.bool() { src.edgy_u64() as usize } else { src.usize(0, 300) };
                what.push(format!("steps {}", p.num_steps));
            }
            1 => {
                p.range_check_min = [None, Some(0), Some(u16::MAX)][src.usize(0, 2)];
                what.push(format!("min {:?}", p.range_check_min));
            }
            2 => {
                p.range_check_max = [None, Some(0), Some(u16::MAX)][src.usize(0, 2)];
                what.push(format!("max {:?}", p.range_check_max));
            }
            3 => {
                p.memory_segments = mutate::arb_public(src).memory_segments;
                what.push(format!("segments {:?}", p.memory_segments));
            }
            4 => {
                p.public_memory.clear();
                what.push("no public memory".into());
            }
            5 => {
                let k = if src.chance(1, 20) { 3000 } else { src.usize(1, 40) };
                for _ in 0..k {
                    let (a, v) = (fe(src), fe(src));
                    p.public_memory.insert(a, v);
                }
                what.push(format!("{k} more cells"));
            }
            6 => {
                p.pc_init = fe(src);
                p.fp_init = fe(src);
                what.push("initial pc, fp".into());
            }
            7 => {
                p.ap_init = fe(src);
                what.push("initial ap".into());
            }
            8 => {
                p.pc_final = fe(src);
                p.ap_final = fe(src);
                what.push("final registers".into());
            }
            _ => {
                let q = mutate::arb_public(src);
                p.public_memory = q.public_memory;
                what.push("other public memory".into());
            }
        }
    }
    what.join(", ")
}

fn system(src: &mut Src) -> Box<dyn System> {
    loop {
        let s = match src.upto(60) {
            60 => sys::large(src, 7),
            _ => sys::random(src, &Cfg { min_log: 0, max_log: 4, ..Cfg::default() }),
        };
        if s.kind() != "fibonacci rap" {
            return s;
        }
    }
}

fn main() {
    let mut c = Check::new("C08", "a case counts when a proof object reaches the verifier; distinct by shape and content of the proof");

    c.run("restructured proofs", c.n(14_000, 200_000), |src, ctx| {
        let s = system(src);
        let mut opts = sys::options_for(src, &*s, 0);
        opts.fri_number_of_queries = opts.fri_number_of_queries.min(5);
        let (Ok(Some(p)), Ok(Some(q))) = (s.prove(&opts), s.prove(&ProofOptions { grinding_factor: 0, fri_number_of_queries: 2, ..opts.clone() })) else {
            return Ok(());
        };
        // many distortions of the same proof
        for _ in 0..12 {
            let mut m = mutate::clone_proof(&p);
            let what = steps(src, &mut m, &q);
            let d = format!("{what} on {} {opts:?}", s.describe());
            ctx.sample(d.clone());
            ctx.evals(1);
            let weight = p.serialize().len();
            verdict(weight, ctx, &d, || s.verify(&m, &opts))?;
            if let Some((r, n)) = received(&m) {
                verdict(n, ctx, &format!("decoded; {d}"), || s.verify(&r, &opts))?;
                ctx.nontrivial(&r.serialize());
            }
        }
        Ok(())
    });

    c.run("hundreds of queries", c.n(250, 4000), |src, ctx| {
        let s = sys::random(src, &Cfg { min_log: 1, max_log: 3, max_main: 2, ..Cfg::default() });
        let mut opts = sys::options_for(src, &*s, 0);
        opts.fri_number_of_queries = src.usize(70, 400);
        let (Ok(Some(p)), Ok(Some(q))) = (s.prove(&opts), s.prove(&ProofOptions { grinding_factor: 0, fri_number_of_queries: 2, ..opts.clone() })) else {
            return Ok(());
        };
        for _ in 0..8 {
            let mut m = mutate::clone_proof(&p);
            let what = steps(src, &mut m, &q);
            let d = format!("{what} on {} {opts:?}", s.describe());
            ctx.sample(d.clone());
            ctx.evals(1);
            verdict(p.serialize().len(), ctx, &d, || s.verify(&m, &opts))?;
            ctx.nontrivial(&m.serialize());
        }
        Ok(())
    });

    c.run("damaged bytes", c.n(10_000, 150_000), |src, ctx| {
        let s = system(src);
        let mut opts = sys::options_for(src, &*s, 0);
        opts.fri_number_of_queries = opts.fri_number_of_queries.min(4);
        let Ok(Some(p)) = s.prove(&opts) else { return Ok(()) };
        let bytes = p.serialize();
        let other = mutate::arb_proof(src).serialize();
        for _ in 0..20 {
            let mut b = bytes.clone();
            let what: Vec<String> = (0..src.usize(1, 2)).map(|_| mutate::damage(src, &mut b, &other)).collect();
            let Ok(Ok(m)) = guard(|| Proof::deserialize(&b)) else {
                ctx.label("not decodable");
                continue;
            };
            let d = format!("{what:?} on {} {opts:?}", s.describe());
            ctx.sample(d.clone());
            ctx.evals(1);
            ctx.nontrivial(&b);
            verdict(b.len(), ctx, &d, || s.verify(&m, &opts))?;
        }
        Ok(())
    });

    c.run("arbitrary proofs", c.n(60_000, 1_000_000), |src, ctx| {
        let s = system(src);
        let opts = ProofOptions { blowup_factor: *src.pick(&[2u8, 4, 8, 128]), fri_number_of_queries: src.usize(0, 4), coset_offset: src.range(2, 9), grinding_factor: 0 };
        let m = mutate::arb_proof(src);
        let d = format!("arbitrary {:?} length {} on {} {opts:?}", mutate::shape(&m), m.trace_length, s.describe());
        ctx.sample(d.clone());
        verdict(100_000, ctx, &d, || s.verify(&m, &opts))?;
        if let Some((r, n)) = received(&m) {
            ctx.nontrivial(&r.serialize());
            verdict(n, ctx, &format!("decoded; {d}"), || s.verify(&r, &opts))?;
        }
        Ok(())
    });

    // everything has the size that an absurd length demands
    c.run("absurd lengths", c.n(12_000, 200_000), |src, ctx| {
        let s = system(src);
        let log_blowup = src.range(1, 7) as u32;
        let opts = ProofOptions { blowup_factor: 1 << log_blowup, fri_number_of_queries: src.usize(0, 3), coset_offset: src.range(2, 9), grinding_factor: 0 };
        let cx = s.context(&opts);
        let log_n = if src.bool() { src.range(0, 63) } else { src.range(30, 62) } as u32;
        let shape = Shape {
            log_n,
            log_blowup,
            queries: opts.fri_number_of_queries,
            columns: cx.trace_columns,
            trees: 1 + (s.aux_width(&opts) > 0) as usize,
            frame_rows: cx.transition_offsets.len(),
        };
        let mut m = mutate::shaped(src, &shape);
        let mut d = format!("shaped {shape:?} on {} {opts:?}", s.describe());
        if src.upto(3) == 0 {
            let o = mutate::arb_proof(src);
            d = format!("{}; {d}", mutate::restructure(src, &mut m, &o));
        }
        ctx.sample(d.clone());
        ctx.label(format!("claimed 2^{}", log_n / 8 * 8));
        let weight = m.serialize().len();
        ctx.nontrivial(&m.serialize());
        verdict(weight, ctx, &d, || s.verify(&m, &opts))
    });

    c.run("Cairo proofs", c.n(500, 8000), |src, ctx| {
        let Some(b) = cairo_base(src) else { return Ok(()) };
        let other = cairo_base(src);
        let other = other.as_ref().unwrap_or(&b);
        let weight = b.proof.serialize().len();
        for _ in 0..10 {
            let mut m = mutate::clone_proof(&b.proof);
            let mut pubs = if src.chance(1, 6) { mutate::arb_public(src) } else { b.pubs.clone() };
            let mut d = disturb(src, &mut pubs);
            if src.chance(2, 3) {
                d = format!("{}; {d}", steps(src, &mut m, &other.proof));
            }
            let d = format!("{d}: {pubs:?} {:?}", b.opts);
            ctx.sample(d.clone());
            ctx.evals(1);
            let cells = 64 * pubs.public_memory.len();
            verdict(weight + cells, ctx, &d, || guard(|| verify_cairo_proof(&m, &pubs, &b.opts)))?;
            ctx.nontrivial(format!("{d}{:?}", mutate::shape(&m)).as_bytes());
            if let (Some((r, n)), Ok(Ok(p2))) = (received(&m), guard(|| PublicInputs::deserialize(&pubs.serialize()))) {
                verdict(n + cells, ctx, &format!("decoded; {d}"), || guard(|| verify_cairo_proof(&r, &p2, &b.opts)))?;
            }
        }
        Ok(())
    });

    c.run("absurd Cairo statements", c.n(12_000, 200_000), |src, ctx| {
        let mut pubs = if src.bool() {
            mutate::arb_public(src)
        } else {
            cairo::generate(src, &cairo::Cfg { max_steps: 6, max_program: 8, ..Default::default() }).public()
        };
        let what = disturb(src, &mut pubs);
        let log_blowup = src.range(1, 3) as u32;
        let log_n = if src.bool() { src.range(0, 12) } else { src.range(13, 63) } as u32;
        if src.chance(3, 4) {
            // past the first look
            pubs.range_check_min = Some(pubs.range_check_min.unwrap_or(0));
            pubs.range_check_max = Some(pubs.range_check_max.unwrap_or(9));
            let n = 1u64 << log_n;
            pubs.num_steps = match src.upto(2) {
                0 => n as usize,
                1 => 1,
                _ => src.range(1, n) as usize,
            };
        }
        let rc = pubs.memory_segments.len();
        let with_rc = src.upto(4) < 2;
        let shape = Shape {
            log_n,
            log_blowup,
            queries: src.usize(0, 2),
            columns: if with_rc { 61 } else { 52 },
            trees: 2,
            frame_rows: 2,
        };
        let opts = ProofOptions { blowup_factor: 1 << log_blowup, fri_number_of_queries: shape.queries, coset_offset: src.range(2, 9), grinding_factor: 0 };
        let m = mutate::shaped(src, &shape);
        let d = format!("{what}; {rc} segments; {shape:?}; {pubs:?}");
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        let weight = m.serialize().len() + 64 * pubs.public_memory.len();
        verdict(weight, ctx, &d, || guard(|| verify_cairo_proof(&m, &pubs, &opts)))
    });

    // statements which whoever makes the proof chooses after its challenges are known
    c.run("statements made for the challenges", c.n(2500, 40_000), |src, ctx| {
        let real = if src.chance(1, 8) { cairo_base(src) } else { None };
        let (m, mut pubs, opts) = match real {
            Some(b) => (b.proof, b.pubs, b.opts),
            None => {
                let mut pubs = cairo::generate(src, &cairo::Cfg { max_steps: 6, max_program: 8, ..Default::default() }).public();
                pubs.range_check_min = Some(src.upto(9) as u16);
                pubs.range_check_max = Some(src.upto(9) as u16);
                let log_n = src.range(4, 12) as u32;
                pubs.num_steps = src.range(1, 1 << log_n) as usize;
                let log_blowup = src.range(1, 3) as u32;
                let columns = if pubs.memory_segments.contains_key(&MemorySegment::RangeCheck) { 61 } else { 52 };
                let shape = Shape { log_n, log_blowup, queries: src.usize(0, 2), columns, trees: 2, frame_rows: 2 };
                let opts = ProofOptions { blowup_factor: 1 << log_blowup, fri_number_of_queries: shape.queries, coset_offset: src.range(2, 9), grinding_factor: 0 };
                (mutate::shaped(src, &shape), pubs, opts)
            }
        };
        let mut t = DefaultTranscript::new();
        t.append(&m.lde_trace_merkle_roots[0]);
        let rap = CairoAIR::new(m.trace_length, &pubs, &opts).build_rap_challenges(&mut t);
        if src.bool() {
            pubs.public_memory.clear();
        }
        let mut what = String::new();
        for _ in 0..src.usize(1, 3) {
            let x = if src.bool() { fe(src) } else { FE::from(src.upto(40)) };
            what = match src.upto(5) {
                // the factor of this cell in the product of the public memory is zero
                0..=2 => {
                    pubs.public_memory.insert(rap.z_memory - rap.alpha_memory * x, x);
                    format!("{what} a vanishing cell,")
                }
                3 => {
                    pubs.public_memory.insert(x, (rap.z_memory - x) * rap.alpha_memory.inv());
                    format!("{what} a vanishing value,")
                }
                4 => {
                    // its factor is one, or minus one
                    let sign = if src.bool() { FE::one() } else { -FE::one() };
                    pubs.public_memory.insert(rap.z_memory - rap.alpha_memory * x - sign, x);
                    format!("{what} a unit cell,")
                }
                _ => {
                    pubs.pc_init = rap.z_memory;
                    pubs.ap_final = rap.alpha_memory;
                    format!("{what} challenges as registers,")
                }
            };
        }
        let d = format!("{what} {pubs:?} {opts:?}, length {}", m.trace_length);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        let weight = m.serialize().len() + 64 * pubs.public_memory.len();
        verdict(weight, ctx, &d, || guard(|| verify_cairo_proof(&m, &pubs, &opts)))
    });

    // lengths within reach of the system's exemption polynomials
    c.run("Fibonacci RAP", c.n(1500, 20_000), |src, ctx| {
        let n = src.usize(3, 30);
        let t = fibonacci_rap_trace([FE::one(), FE::one()], n);
        let pubs = FibonacciRAPPublicInputs { steps: n, a0: FE::one(), a1: FE::one() };
        let opts = ProofOptions { blowup_factor: 4, fri_number_of_queries: 2, coset_offset: 3, grinding_factor: 0 };
        let Ok(Ok(p)) = guard(|| prover::prove::<F, FibonacciRAP<F>>(&t, &pubs, &opts)) else { return Ok(()) };
        let log_n = src.range(0, 9) as u32;
        let short_claim = (1usize << log_n) < n + 1;
        let mut m;
        let what;
        if src.bool() {
            m = mutate::shaped(src, &Shape { log_n, log_blowup: 2, queries: 2, columns: 3, trees: 2, frame_rows: 3 });
            what = format!("shaped for 2^{log_n}");
        } else {
            m = mutate::clone_proof(&p);
            let q = mutate::arb_proof(src);
            what = steps(src, &mut m, &q);
            if m.trace_length != p.trace_length {
                m.trace_length = 1 << log_n;
            }
        }
        let short_claim = short_claim && m.trace_length < n + 1;
        let d = format!("{what}, {n} steps, length {}", m.trace_length);
        ctx.sample(d.clone());
        ctx.nontrivial(&m.serialize());
        let r = guard(|| verifier::verify::<F, FibonacciRAP<F>>(&m, &pubs, &opts));
        match r {
            // the system subtracts the number of steps from the claimed length
            Err(e) if short_claim && m.trace_length < n + 1 => ctx.report(fail("fibonacci-rap-short-claim", format!("{e}: {d}"))),
            r => verdict(m.serialize().len(), ctx, &d, || r),
        }
    });
    c.finish()
}
