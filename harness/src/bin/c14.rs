//! C14: every valid Cairo execution can be proved and verified.
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR, MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::runner::run::{cairo0_program_path, cairo1_program_path, generate_prover_args, run_program, CairoVersion};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use vh::cairo::{self, Cfg};
use vh::cairo_air;
use vh::programs;
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

fn works(src: &mut Src, ctx: &mut Ctx, run: &cairo::Run) -> Res {
    ctx.sample(run.describe());
    let d = run.describe();
    let mut pubs = run.public();
    let t = match guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) {
        Ok(t) => t,
        Err(m) => return fail("trace-crash", format!("{m}: {d}")),
    };
    prove_and_verify(src, ctx, &t, &pubs, run.steps.len(), &d)
}

fn prove_and_verify(src: &mut Src, ctx: &mut Ctx, t: &TraceTable<F>, pubs: &PublicInputs, steps: usize, d: &str) -> Res {
    let opts = sys::options(src, t.n_rows(), 2, 0);
    let proof = match guard(|| generate_cairo_proof(t, pubs, &opts)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return fail("no-proof", format!("{e:?}: {d}")),
        Err(m) => return fail("prover-crash", format!("{m}: {d}")),
    };
    let r = guard(|| verify_cairo_proof(&proof, pubs, &opts));
    ensure!(r == Ok(true), "rejected", "{r:?} rows {} {opts:?} {d}", t.n_rows());
    ctx.label(format!("log2 rows {}", t.n_rows().ilog2()));
    if 2 * steps > t.n_rows() {
        ctx.label("more than half of the rows are steps");
    }
    if steps == t.n_rows() {
        ctx.label("every row is a step");
    }
    if steps >= 3 {
        ctx.nontrivial(d.as_bytes());
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C14", "a case counts when the execution has at least three steps");
    let n = c.n(10000, 100_000);
    c.run("generated executions", n, |src, ctx| {
        let run = cairo::generate(src, &Cfg::default());
        works(src, ctx, &run)
    });
    let n = c.n(400, 6000);
    c.run("long and wide executions", n, |src, ctx| {
        let far = *src.pick(&[300u64, 2000, 9000]);
        let cfg = Cfg { far, max_steps: 700, max_program: 600, max_output: 60, max_rc: 60, max_room: 2000, free_room: 12000, ..Cfg::default() };
        let run = cairo::generate(src, &cfg);
        works(src, ctx, &run)
    });
    let n = c.n(5000, 60_000);
    c.run("programs run by the machine", n, |src, ctx| {
        let v1 = src.chance(1, 3);
        let ops = *src.pick(&[6, 20, 50]);
        let p = programs::generate(src, v1, ops);
        let d = p.describe();
        ctx.sample(d.clone());
        // the output segment comes after the execution segment
        let version = || if v1 { CairoVersion::V1 } else { CairoVersion::V0 };
        let mut range = None;
        if let Some(ptr) = p.out_ptr() {
            let (regs, mem, _, _) = run_program(None, CairoLayout::Small, &p.bytes(), &version()).map_err(|e| Fail { sig: "refused".into(), msg: format!("{e:?}: {d}") })?;
            let b = mem.get(&regs.rows[0].fp.wrapping_add_signed(ptr)).and_then(cairo::to_u64).unwrap_or(0);
            range = Some(b..b + p.outputs.len() as u64).filter(|_| src.chance(3, 4));
        }
        let (t, pubs) = match guard(|| generate_prover_args(&p.bytes(), &version(), &range)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return fail("refused", format!("{e:?}: {d}")),
            Err(m) => return fail("trace-crash", format!("{m}: {d}")),
        };
        prove_and_verify(src, ctx, &t, &pubs, p.steps, &d)
    });
    // memories too large to prove here: the columns the prover would commit to satisfy the reference constraints
    let n = c.n(24, 400);
    c.run("large memories", n, |src, ctx| {
        // the public memory is what takes the room, or the rest of the memory
        let cfg = if src.chance(1, 3) {
            let most = *src.pick(&[3000, 12_000]);
            Cfg { far: 300, max_steps: 60, max_program: most, max_output: most, max_rc: 20, max_room: 2000, free_room: 3 * most as u64 + 9000, ..Cfg::default() }
        } else {
            Cfg { far: 30_000, max_steps: 60, max_program: 60, max_output: 300, max_rc: 300, max_room: 150_000, free_room: 90_000, ..Cfg::default() }
        };
        let run = if src.chance(1, 4) { cairo::extremes(src) } else { cairo::generate(src, &cfg) };
        if run.steps.is_empty() {
            return Ok(());
        }
        let d = run.describe();
        let mut pubs = run.public();
        let t = match guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) {
            Ok(t) => t,
            Err(m) => return fail("trace-crash", format!("{m}: {d}")),
        };
        let st = cairo_air::Statement::new(pubs.clone(), cairo_air::AuxPlan::Crate);
        let case = cairo_air::Case { main: t.rows(), st, run };
        let ch = cairo_air::Ch::draw(src);
        let opts = ProofOptions::default_test_options();
        let full = match guard(|| case.full(&ch, &opts)) {
            Ok(f) => f,
            Err(m) => return fail("trace-crash", format!("auxiliary columns: {m}: {d}")),
        };
        let v = cairo_air::violations(&full, &pubs, &ch);
        ensure!(v.is_empty(), "trace-violates", "{:?}: {d}", &v[..v.len().min(4)]);
        // and what the verifier will ask of it
        if full.len() <= 1 << 16 {
            match guard(|| cairo_air::crate_violations(&full, &pubs, &ch, &opts)) {
                Ok(w) => ensure!(w.is_empty(), "trace-refused", "{:?}: {d}", &w[..w.len().min(4)]),
                Err(m) => return fail("trace-crash", format!("constraints: {m}: {d}")),
            }
            ctx.label("constraints of the crate evaluated");
        }
        ctx.label(format!("log2 rows {}", full.len().ilog2()));
        let public = pubs.public_memory.len();
        if public > 256 {
            ctx.label(format!("public memory of 2^{} cells or more", public.ilog2()));
        }
        if full.len() >= 1 << 14 || public > 1 << 10 {
            ctx.nontrivial(d.as_bytes());
        }
        Ok(())
    });
    // as many steps as a narrow integer cannot count
    let n = c.n(6, 60);
    c.run("thousands of steps", n, |src, ctx| {
        let steps = src.usize(2000, 9000);
        let run = cairo::counting(src, steps);
        works(src, ctx, &run)
    });
    let n = c.n(3, 30);
    c.run("more than 2^16 steps", n, |src, ctx| {
        let steps = src.usize(66_000, 120_000);
        let run = cairo::counting(src, steps);
        let d = run.describe();
        let mut pubs = run.public();
        let t = match guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) {
            Ok(t) => t,
            Err(m) => return fail("trace-crash", format!("{m}: {d}")),
        };
        drop(run);
        let opts = ProofOptions::default_test_options();
        let ch = cairo_air::Ch::draw(src);
        let air = CairoAIR::new(t.n_rows(), &pubs, &opts);
        let r = guard(|| {
            let aux = air.build_auxiliary_trace(&t, &ch.real());
            let full = cairo_air::join(&rows(&t), rows(&aux));
            let v = cairo_air::violations(&full, &pubs, &ch).iter().take(4).map(|v| format!("{v:?}")).collect::<Vec<_>>();
            let w = cairo_air::crate_violations(&full, &pubs, &ch, &opts);
            (v, w.into_iter().take(4).collect::<Vec<_>>())
        });
        match r {
            Ok((v, w)) => {
                ensure!(v.is_empty(), "trace-violates", "{v:?}: {d}");
                ensure!(w.is_empty(), "trace-refused", "{w:?}: {d}");
            }
            Err(m) => return fail("trace-crash", format!("auxiliary columns: {m}: {d}")),
        }
        ctx.label(format!("log2 rows {}", t.n_rows().ilog2()));
        ctx.nontrivial(d.as_bytes());
        Ok(())
    });
    let files = [cairo1_program_path("fibonacci_cairo1.casm"), cairo0_program_path("../../src/cairo/runner/program.json")];
    c.each("programs of the repository", &files, |path, ctx| {
        let Ok(bytes) = std::fs::read(path) else {
            ctx.label("no such file");
            return Ok(());
        };
        let v = if path.ends_with("casm") { CairoVersion::V1 } else { CairoVersion::V0 };
        let (t, pubs) = match guard(|| generate_prover_args(&bytes, &v, &None)) {
            Ok(Ok(r)) => r,
            r => return fail("refused", format!("{:?}: {path}", r.map(|r| r.map(|_| ())))),
        };
        prove_and_verify(&mut Src::random(1), ctx, &t, &pubs, pubs.num_steps, path)
    });
    let blank = cairo::generate(&mut Src::random(1), &Cfg::default()).public();
    let n = c.n(60_000, 2_000_000);
    c.run("valid frames", n, |src, ctx| {
        let f = cairo_air::frame(src, None);
        let d = f.what.clone();
        ctx.sample(d.clone());
        let mut pubs = blank.clone();
        pubs.memory_segments.clear();
        if f.has_rc {
            pubs.memory_segments.insert(MemorySegment::RangeCheck, 1..2);
        }
        let air = CairoAIR::new(64, &pubs, &ProofOptions::default_test_options());
        let v = match guard(|| air.compute_transition(&f.frame(), &f.ch.real())) {
            Ok(v) => v,
            Err(m) => return fail("frame-crash", format!("{m}: {d}")),
        };
        for (k, x) in v.iter().enumerate() {
            ensure!(*x == FE::zero(), "valid-frame", "constraint {k} ({}) is {}: {d}", cairo_air::NAMES.get(k).unwrap_or(&"?"), short(x));
        }
        ctx.nontrivial(d.as_bytes());
        Ok(())
    });
    c.finish()
}
