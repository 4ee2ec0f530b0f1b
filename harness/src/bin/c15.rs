//! C15: the Cairo constraint system admits valid executions only.
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::{proof::options::ProofOptions, prover, traits::AIR};
use vh::adv::{self, Cheat};

use vh::cairo::{self, Cfg};
use vh::cairo_air::{col::*, *};
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

/// Soundness error of one accepted false proof is about 2^-BITS.
const BITS: usize = 34;

use vh::cairo_faults::*;

fn accepted(c: &Case, proof: &vh::sys::Proof, opts: &ProofOptions) -> Result<bool, Fail> {
    match guard(|| verify_cairo_proof(proof, &c.st.pubs, opts)) {
        Ok(b) => Ok(b),
        Err(m) => fail("verify-crash", m),
    }
}

fn honest_proof(c: &Case, opts: &ProofOptions) -> Option<vh::sys::Proof> {
    let t = table(&c.main);
    guard(|| prover::prove::<F, Lying>(&t, &c.st, opts)).ok()?.ok()
}

fn main() {
    let mut ck = Check::new(
        "C15",
        "a case counts when the independently written constraint system says the frame or trace violates something; distinct by full description",
    );
    let n = ck.n(60_000, 1_500_000);
    ck.run("frames", n, |src, ctx| {
        let k = src.usize(0, 49);
        let f = frame(src, Some(k));
        let want = frame_eval(&f.curr, &f.next, &f.ch, f.has_rc);
        let bad: Vec<usize> = (0..want.len()).filter(|i| want[*i] != FE::zero()).collect();
        if bad.is_empty() {
            ctx.label("not broken after all");
            return Ok(());
        }
        ctx.label(if bad == [k] { "exactly one constraint broken" } else { "several constraints broken" });
        ctx.sample(f.what.clone());
        ctx.nontrivial(f.what.as_bytes());
        let mut pubs = cairo_pubs();
        if f.has_rc {
            pubs.memory_segments.insert(lambdaworks_stark::cairo::air::MemorySegment::RangeCheck, 1..2);
        }
        let air = CairoAIR::new(64, &pubs, &ProofOptions::default_test_options());
        match guard(|| air.compute_transition(&f.frame(), &f.ch.real())) {
            Ok(v) => ensure!(v.iter().any(|x| *x != FE::zero()), "frame-admitted", "constraints {bad:?} broken, none reported: {}", f.what),
            Err(m) => return fail("frame-crash", format!("{m}: {}", f.what)),
        }
        Ok(())
    });
    let n = ck.n(40_000, 600_000);
    ck.run("traces", n, |src, ctx| {
        let f = if src.chance(1, 200) {
            let cfg = large(src);
            ctx.label("long execution");
            faulty_in(src, ctx, cfg)
        } else {
            faulty(src, ctx)
        };
        let Some((c, what)) = f else {
            ctx.label("fault does not apply");
            return Ok(());
        };
        let opts = ProofOptions::default_test_options();
        let ch = Ch::draw(src);
        let Ok(full) = guard(|| c.full(&ch, &opts)) else {
            ctx.label("no auxiliary columns");
            return Ok(());
        };
        let v = violations(&full, &c.st.pubs, &ch);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        let names: std::collections::BTreeSet<&String> = v.iter().map(|x| &x.0).collect();
        if names.len() == 1 {
            ctx.label(format!("only: {}", v[0].0));
            if v.len() == 1 && v[0].1 == 0 {
                ctx.label(format!("only in the first row: {}", v[0].0));
            } else if v.len() == 1 && v[0].1 + 2 >= c.n() {
                ctx.label(format!("only in row n-{}: {}", c.n() - v[0].1, v[0].0));
            }
        }
        let d = format!("{what}; violated: {:?}; {}", &v[..v.len().min(4)], c.run.describe());
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        match guard(|| crate_violations(&full, &c.st.pubs, &ch, &opts)) {
            Ok(w) => ensure!(!w.is_empty(), "trace-admitted", "{d}"),
            Err(m) => return fail("trace-crash", format!("{m}: {d}")),
        }
        Ok(())
    });
    let n = ck.n(5000, 80_000);
    ck.run("proofs", n, |src, ctx| {
        let f = if src.chance(1, 60) {
            let cfg = large(src);
            ctx.label("long execution");
            faulty_in(src, ctx, cfg)
        } else {
            faulty(src, ctx)
        };
        let Some((c, what)) = f else { return Ok(()) };
        let opts = sys::options(src, c.n(), 2, BITS);
        let ch = Ch::draw(src);
        let Ok(full) = guard(|| c.full(&ch, &opts)) else { return Ok(()) };
        let v = violations(&full, &c.st.pubs, &ch);
        if v.is_empty() {
            return Ok(());
        }
        let d = format!("{what}; violated: {:?}; {:?} {}", &v[..v.len().min(4)], opts, c.run.describe());
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        match honest_proof(&c, &opts) {
            None => ctx.label("prover gave no proof"),
            Some(p) => {
                ctx.label("prover gave a proof");
                ensure!(!accepted(&c, &p, &opts)?, "accepted", "{d}");
            }
        }
        if c.n() <= 64 && src.chance(1, 3) {
            let t = table(&c.main);
            let cheat = match src.upto(5) {
                0 => Cheat::ForgedCompositionAndClaims,
                1 => Cheat::OmitViolatedAndClaim,
                _ => Cheat::OmitViolated,
            };
            let small = ProofOptions { blowup_factor: 2, fri_number_of_queries: BITS, ..opts.clone() };
            match guard(|| adv::prove::<Lying>(src, &t, &c.st, &small, &cheat)) {
                Ok(Some(o)) if o.effective => {
                    ctx.label(format!("adversary {cheat:?}"));
                    ctx.evals(1);
                    ensure!(!accepted(&c, &o.proof, &small)?, "forged-accepted", "{cheat:?}: {d}");
                }
                _ => ctx.label("adversary without effect"),
            }
        }
        Ok(())
    });
    // an execution which is false unless a challenge has the value the prover hoped for
    let n = ck.n(1500, 20_000);
    ck.run("guessed challenges", n, |src, ctx| {
        let cfg = small(src);
        let Some(mut c) = case(src, &cfg) else { return Ok(()) };
        let Some((kind, what)) = guessing(src, &mut c) else {
            ctx.label("does not apply");
            return Ok(());
        };
        let opts = sys::options(src, c.n(), 2, BITS);
        let ch = Ch::draw(src);
        let Ok(full) = guard(|| c.full(&ch, &opts)) else { return Ok(()) };
        if violations(&full, &c.st.pubs, &ch).is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        let d = format!("{what}; {:?} {}", opts, c.run.describe());
        ctx.sample(d.clone());
        if let Some(p) = honest_proof(&c, &opts) {
            ctx.nontrivial(d.as_bytes());
            ctx.label(kind);
            ensure!(!accepted(&c, &p, &opts)?, "accepted", "{d}");
        }
        Ok(())
    });
    // the prover of the crate on a memory whose range check segment holds too large a value
    let n = ck.n(1500, 20_000);
    ck.run("builtin values", n, |src, ctx| {
        let cfg = Cfg { max_steps: *src.pick(&[3, 10, 40]), max_rc: *src.pick(&[2, 12, 40]), ..small(src) };
        let mut run = cairo::generate(src, &cfg);
        let Some(rc) = run.rc.clone() else { return Ok(()) };
        // a cell no step reads, so that nothing else is wrong
        let read: std::collections::HashSet<u64> = run.steps.iter().flat_map(|(_, t)| t.addr).collect();
        let free: Vec<u64> = rc.clone().filter(|a| !read.contains(a)).collect();
        if free.is_empty() {
            ctx.label("every cell is read");
            return Ok(());
        }
        let a = *src.pick(&free);
        let big = match src.upto(2) {
            0 => FE::from(2u64).pow(128u64),
            1 => FE::from(2u64).pow(128u64 + src.upto(120)) + FE::from(src.u64()),
            _ => FE::zero() - FE::from(src.range(1, 1000)),
        };
        run.mem.insert(a, big.clone());
        let steps = run.steps.len();
        let d = format!("cell {} of {} of the range check segment holds {}; {steps} steps; {}", a - rc.start, rc.end - rc.start, short(&big), run.describe());
        let mut pubs = run.public();
        let Ok(t) = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) else {
            ctx.label("refused");
            return Ok(());
        };
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(if a - rc.start >= steps as u64 { "cell beyond the steps" } else { "cell within the steps" });
        let opts = sys::options(src, t.n_rows(), 2, BITS);
        let Ok(Ok(p)) = guard(|| generate_cairo_proof(&t, &pubs, &opts)) else {
            ctx.label("prover gave no proof");
            return Ok(());
        };
        match guard(|| verify_cairo_proof(&p, &pubs, &opts)) {
            Ok(ok) => ensure!(!ok, "builtin-value", "accepted: {d}"),
            Err(m) => return fail("verify-crash", format!("{m}: {d}")),
        }
        Ok(())
    });
    // weaknesses of the constraint system itself (listed as known)
    let n = ck.n(240, 2000);
    ck.run("known attacks", n, |src, ctx| {
        let cfg = small(src);
        let Some(mut c) = case(src, &cfg) else { return Ok(()) };
        let opts = sys::options(src, c.n(), 2, BITS);
        let which = src.upto(2);
        let sig = match which {
            0 => {
                if c.run.steps.len() < 2 {
                    return Ok(());
                }
                for r in c.main.iter_mut() {
                    r[SELECTOR] = FE::zero();
                }
                let e = c.run.steps.len() - 1;
                c.main[e][AP] = fe_other(src, &c.main[e][AP].clone());
                c.st.pubs.ap_final = c.main[e][AP].clone();
                "selector-off"
            }
            1 => {
                c.st.shadow = Some(c.st.pubs.clone());
                let a = FE::from(src.range(1, c.run.program_len));
                let v = c.st.pubs.public_memory[&a].clone();
                c.st.pubs.public_memory.insert(a, fe_other(src, &v));
                c.st.plan = AuxPlan::CloseMemory(0);
                "memory-product-start"
            }
            _ => {
                let Some(rc) = c.run.rc.clone() else { return Ok(()) };
                let big = FE::from(2u64).pow(128u64 + src.upto(100)) + FE::from(src.upto(9));
                let a = FE::from(rc.start);
                c.poke(&a, &big);
                for r in 0..c.run.steps.len() {
                    if c.main[r][ADDR + 2] == a {
                        let d = c.main[r][ADDR].clone();
                        c.poke(&d, &big);
                        c.derive(r);
                    }
                }
                if !c.main.iter().any(|r| r[ADDR + 2] == a) {
                    return Ok(());
                }
                "builtin-unbound"
            }
        };
        let ch = Ch::draw(src);
        let Ok(full) = guard(|| c.full(&ch, &opts)) else { return Ok(()) };
        let v = violations(&full, &c.st.pubs, &ch);
        if !v.is_empty() {
            ctx.label(format!("{sig}: violates {:?}", v[0].0));
            return Ok(());
        }
        ctx.label(format!("attack {sig}"));
        if let Some(p) = honest_proof(&c, &opts) {
            if accepted(&c, &p, &opts)? {
                return ctx.report(fail(sig, format!("false statement accepted: {}", c.run.describe())));
            }
        }
        Ok(())
    });
    ck.assume("accepted with probability about 2^-34 at most per false proof; the oracle is an independent transcription of the constraint system, which itself has the listed weaknesses");
    ck.finish()
}

fn cairo_pubs() -> lambdaworks_stark::cairo::air::PublicInputs {
    lambdaworks_stark::cairo::air::PublicInputs {
        pc_init: FE::one(),
        ap_init: FE::one(),
        fp_init: FE::one(),
        pc_final: FE::one(),
        ap_final: FE::one(),
        range_check_min: Some(0),
        range_check_max: Some(9),
        memory_segments: Default::default(),
        public_memory: Default::default(),
        num_steps: 1,
    }
}
