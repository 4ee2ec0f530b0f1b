//! C03: a proof is bound to the public inputs it was made for.
use lambdaworks_stark::starks::{
    example::{
        fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
        simple_fibonacci::{fibonacci_trace, FibonacciAIR, FibonacciPublicInputs},
    },
    prover,
    traits::AIR,
    verifier,
};
use std::sync::Arc;
use vh::genair::{self, Cfg, GenAir};
use vh::adv::compensate;
use vh::sys;
use vh::*;

fn generated(src: &mut Src, ctx: &mut Ctx, inst: genair::Instance) -> Res {
    let pubs = inst.pubs();
    let t = inst.table();
    let opts = sys::options(src, inst.spec.n, inst.spec.min_blowup(), 20);
    let p = match guard(|| prover::prove::<F, GenAir>(&t, &pubs, &opts)) {
        Ok(Ok(p)) => p,
        _ => {
            ctx.label("no proof");
            return Ok(());
        }
    };
    for _ in 0..4 {
        let (mut other, mut what) = genair::alter(src, &inst.spec);
        if src.chance(1, 4) {
            let (o, w) = genair::alter(src, &other);
            other = o;
            what = format!("{what} and {w}");
        }
        let v = genair::violations(&other, &inst.rows);
        if v.is_empty() {
            ctx.label("still true of the trace");
            continue;
        }
        ctx.evals(1);
        let d = format!("{what} of {} under {:?}", inst.spec.describe(), opts);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(what.split(" of ").next().unwrap_or("").to_string());
        let r = guard(|| verifier::verify::<F, GenAir>(&p, &Arc::new(other), &opts));
        ensure!(r == Ok(false), "other-statement", "proof not rejected ({r:?}) with altered {d}");
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C03",
        "a case counts when the altered public inputs are violated by the trace that was proved (direct oracle), or describe another step count; distinct by system, options and alteration",
    );
    let cfg = Cfg { min_log: 0, max_log: 5, ..Cfg::default() };
    let n = c.n(16_000, 250_000);
    c.run("generated statements", n, |src, ctx| {
        let inst = genair::gen(src, &cfg);
        generated(src, ctx, inst)
    });
    let n = c.n(500, 8000);
    let max_log = c.n(9, 11) as usize;
    c.run("statements about large systems", n, |src, ctx| {
        let inst = genair::large(src, max_log);
        generated(src, ctx, inst)
    });
    // boundary steps alike in their low bits
    let n = c.n(100, 1500);
    c.run("statements about long traces", n, |src, ctx| {
        let mut inst = genair::gen(src, &Cfg { min_log: 8, max_log: 10, max_main: 2, ..Cfg::default() });
        let k = src.usize(4, inst.spec.n.ilog2() as usize - 1);
        inst.spec.bounds.retain(|b| b.step < 1 << k && b.col < inst.spec.main);
        if inst.spec.bounds.is_empty() {
            let (step, col) = (src.usize(0, (1 << k) - 1), src.usize(0, inst.spec.main - 1));
            inst.spec.bounds.push(genair::Bound { col, step, value: inst.rows[step][col].clone(), gamma_coef: FE::zero() });
        }
        let (pubs, t) = (inst.pubs(), inst.table());
        let opts = sys::options(src, inst.spec.n, inst.spec.min_blowup(), 20);
        let p = match guard(|| prover::prove::<F, GenAir>(&t, &pubs, &opts)) {
            Ok(Ok(p)) => p,
            _ => {
                ctx.label("no proof");
                return Ok(());
            }
        };
        for j in k..inst.spec.n.ilog2() as usize {
            let mut other = inst.spec.clone();
            let i = src.usize(0, other.bounds.len() - 1);
            other.bounds[i].step ^= 1 << j;
            if genair::violations(&other, &inst.rows).is_empty() {
                ctx.label("still true of the trace");
                continue;
            }
            ctx.evals(1);
            let d = format!("boundary constraint {i} moved by 2^{j}: {} under {:?}", inst.spec.describe(), opts);
            ctx.sample(d.clone());
            ctx.nontrivial(d.as_bytes());
            let r = guard(|| verifier::verify::<F, GenAir>(&p, &Arc::new(other), &opts));
            ensure!(r == Ok(false), "other-statement", "proof not rejected ({r:?}): {d}");
        }
        Ok(())
    });
    let n = c.n(4000, 60_000);
    c.run("example statements", n, |src, ctx| {
        let which = src.upto(2);
        let s = sys::example_of(src, which, 5);
        let opts = sys::options_for(src, &*s, 20);
        let Ok(Some(p)) = s.prove(&opts) else {
            ctx.label("no proof");
            return Ok(());
        };
        for _ in 0..3 {
            let (o, what) = s.other_statement(src).unwrap();
            let d = format!("{what}: {} under {:?}", s.describe(), opts);
            ctx.evals(1);
            ctx.sample(d.clone());
            ctx.nontrivial(d.as_bytes());
            ctx.label(format!("{} {what}", s.kind()));
            let r = o.verify(&p, &opts);
            ensure!(r == Ok(false), "other-statement", "proof not rejected ({r:?}): {d}");
        }
        Ok(())
    });
    let n = c.n(1500, 20_000);
    c.run("step count", n, |src, ctx| {
        let steps = src.usize(3, 31);
        let (a0, a1) = (FE::one(), FE::one());
        let t = fibonacci_rap_trace([a0.clone(), a1.clone()], steps);
        let pubs = FibonacciRAPPublicInputs { steps, a0, a1 };
        let opts = sys::options(src, t.n_rows(), 2, 20);
        let Ok(Ok(p)) = guard(|| prover::prove::<F, FibonacciRAP<F>>(&t, &pubs, &opts)) else {
            return Ok(());
        };
        let mut q = pubs.clone();
        while q.steps == pubs.steps {
            // within the same trace length
            q.steps = src.usize(t.n_rows() / 2, t.n_rows() - 1).max(3);
            if t.n_rows() == 4 {
                return Ok(());
            }
        }
        let d = format!("steps {} instead of {steps}, {:?}", q.steps, pubs);
        ctx.nontrivial(d.as_bytes());
        let r = guard(|| verifier::verify::<F, FibonacciRAP<F>>(&p, &q, &opts));
        ensure!(r == Ok(false), "other-steps", "proof not rejected ({r:?}): {d}");
        // the initial values of this example
        let mut q = pubs.clone();
        if src.bool() {
            q.a0 = fe_other(src, &pubs.a0);
        } else {
            q.a1 = fe_other(src, &pubs.a1);
        }
        ctx.report(match guard(|| verifier::verify::<F, FibonacciRAP<F>>(&p, &q, &opts)) {
            Ok(true) => fail("fibonacci-rap-initial-values", format!("proof for {pubs:?} accepted for {q:?}")),
            _ => Ok(()),
        })
    });
    // public inputs chosen after the proof, to satisfy the one equation that contains them
    let n = c.n(200, 3000);
    c.run("statement chosen after the fact", n, |src, ctx| {
        let log = src.usize(2, 5);
        let (a0, a1) = (fe(src), fe(src));
        let t = fibonacci_trace([a0.clone(), a1.clone()], 1 << log);
        let pubs = FibonacciPublicInputs { a0, a1 };
        let opts = sys::options(src, 1 << log, 2, 20);
        let Ok(Ok(p)) = guard(|| prover::prove::<F, FibonacciAIR<F>>(&t, &pubs, &opts)) else {
            return Ok(());
        };
        let air = FibonacciAIR::<F>::new(1 << log, &pubs, &opts);
        let cs = air.boundary_constraints(&()).constraints;
        let mut q = pubs.clone();
        q.a0 = fe_other(src, &pubs.a0);
        q.a1 = compensate(&air, &p, &cs, (0, &q.a0), 1).unwrap();
        let d = format!("FibonacciAIR proof for {:?}, public inputs {:?}", pubs, q);
        ctx.nontrivial(d.as_bytes());
        let r = guard(|| verifier::verify::<F, FibonacciAIR<F>>(&p, &q, &opts));
        let bad: Res = match r {
            Ok(true) => fail("adaptive-boundary-values", format!("accepted for public inputs nothing satisfies: {d}")),
            Ok(false) => Ok(()),
            Err(m) => fail("verify-crash", m),
        };
        ctx.report(bad)?;
        // the same with one more degree of freedom must not help: compensation only through a
        // value that is not part of the statement
        let mut q = pubs.clone();
        q.a0 = fe_other(src, &pubs.a0);
        q.a1 = fe_uniform(src);
        if q.a1 != pubs.a1 {
            let r = guard(|| verifier::verify::<F, FibonacciAIR<F>>(&p, &q, &opts));
            ensure!(r == Ok(false), "other-statement", "two altered values accepted: {d}");
        }
        Ok(())
    });
    c.assume("statements are compared by a direct oracle on the proved trace; the transcript holds no public inputs (listed finding), which is attacked separately");
    c.finish()
}
