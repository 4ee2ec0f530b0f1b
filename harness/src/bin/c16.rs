//! C16: a Cairo proof is bound to program, output, registers, bounds and step count.
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::{
    generate_cairo_proof, verify_cairo_proof, CairoAIR, MemorySegment, PublicInputs,
};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use vh::adv::{self, Cheat};
use vh::cairo;
use vh::cairo_faults::small;
use vh::cairo_air::*;
use vh::cairo_air::col::{AP, PC};
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

const BITS: usize = 34;

fn cells(p: &PublicInputs) -> Vec<(FE, FE)> {
    let mut v: Vec<(FE, FE)> = p.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
    v.sort_by_key(|(a, _)| a.representative());
    v
}

/// One alteration of a statement.
fn alter(src: &mut Src, p: &mut PublicInputs, n: usize, run: &cairo::Run) -> String {
    let c = cells(p);
    let reg = |src: &mut Src, v: &mut FE| {
        *v = match src.upto(2) {
            0 => &*v + FE::one(),
            1 => &*v - FE::one(),
            _ => fe_other(src, &*v),
        }
    };
    match src.upto(15) {
        14 => {
            // where the execution passes, but does not end
            let r = src.pick(&run.regs);
            p.pc_final = FE::from(r.pc);
            p.ap_final = FE::from(r.ap);
            "final registers of another step".into()
        }
        15 => {
            let r = src.pick(&run.regs);
            p.pc_init = FE::from(r.pc);
            p.ap_init = FE::from(r.ap);
            p.fp_init = FE::from(r.fp);
            "initial registers of another step".into()
        }
        0 => {
            reg(src, &mut p.pc_init);
            "initial pc".into()
        }
        1 => {
            reg(src, &mut p.ap_init);
            "initial ap".into()
        }
        2 => {
            reg(src, &mut p.pc_final);
            "final pc".into()
        }
        3 => {
            reg(src, &mut p.ap_final);
            "final ap".into()
        }
        4 => {
            p.range_check_min = match (p.range_check_min, src.upto(3)) {
                (_, 0) => None,
                (Some(x), 1) => Some(x.wrapping_sub(1)),
                (Some(x), 2) => Some(x.wrapping_add(1)),
                (x, _) => x.map(|x| x ^ 1 << src.upto(15)),
            };
            "smallest offset".into()
        }
        5 => {
            p.range_check_max = match (p.range_check_max, src.upto(3)) {
                (_, 0) => None,
                (Some(x), 1) => Some(x.wrapping_sub(1)),
                (Some(x), 2) => Some(x.wrapping_add(1)),
                (x, _) => x.map(|x| x ^ 1 << src.upto(15)),
            };
            "largest offset".into()
        }
        6 | 7 => {
            // program or output
            let out = p.memory_segments.get(&MemorySegment::Output).cloned();
            let (a, v) = match out {
                Some(r) if src.bool() => c.iter().find(|x| x.0 == FE::from(r.start)).unwrap_or(&c[0]).clone(),
                _ => src.pick(&c).clone(),
            };
            p.public_memory.insert(a.clone(), fe_other(src, &v));
            "value of a public cell".into()
        }
        8 => {
            let (a, v) = src.pick(&c).clone();
            p.public_memory.remove(&a);
            let mut b = fe_other(src, &a);
            while p.public_memory.contains_key(&b) {
                b = b + FE::one();
            }
            p.public_memory.insert(b, v);
            "address of a public cell".into()
        }
        9 => {
            let (a, _) = src.pick(&c).clone();
            p.public_memory.remove(&a);
            "public cell removed".into()
        }
        10 => {
            let a = match src.upto(2) {
                0 => c.last().unwrap().0.clone() + FE::one(),
                1 => p.ap_init.clone(),
                _ => fe(src),
            };
            let v = fe(src);
            p.public_memory.insert(a, v);
            "public cell added".into()
        }
        11 => {
            let old = p.num_steps;
            p.num_steps = match src.upto(6) {
                0 => old - 1,
                1 => old + 1,
                2 => old + n,
                3 => src.usize(1, n),
                4 => 0,
                5 => n + 1,
                _ => src.edgy_u64() as usize,
            };
            "number of steps".into()
        }
        12 => {
            if p.memory_segments.remove(&MemorySegment::RangeCheck).is_none() {
                p.memory_segments.insert(MemorySegment::RangeCheck, src.range(1, 40)..50);
            }
            "range check segment present or not".into()
        }
        _ => {
            let (i, j) = (src.usize(0, c.len() - 1), src.usize(0, c.len() - 1));
            p.public_memory.insert(c[i].0.clone(), c[j].1.clone());
            p.public_memory.insert(c[j].0.clone(), c[i].1.clone());
            "values of two public cells exchanged".into()
        }
    }
}

struct Proved {
    run: cairo::Run,
    main: Vec<Vec<FE>>,
    pubs: PublicInputs,
    opts: lambdaworks_stark::starks::proof::options::ProofOptions,
    proof: sys::Proof,
}

fn proved(src: &mut Src, ctx: &mut Ctx) -> Option<Proved> {
    let cfg = small(src);
    proved_in(src, ctx, cfg)
}

fn proved_in(src: &mut Src, ctx: &mut Ctx, cfg: cairo::Cfg) -> Option<Proved> {
    let run = cairo::generate(src, &cfg);
    let mut pubs = guard(|| run.public()).ok()?;
    let t = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)).ok()?;
    let opts = sys::options(src, t.n_rows(), 2, BITS);
    let main = t.rows();
    match guard(|| generate_cairo_proof(&t, &pubs, &opts)) {
        Ok(Ok(proof)) if guard(|| verify_cairo_proof(&proof, &pubs, &opts)) == Ok(true) => {
            if 2 * run.steps.len() > main.len() {
                ctx.label("more than half of the rows are steps");
            }
            Some(Proved { run, main, pubs, opts, proof })
        }
        _ => {
            // completeness is another property
            ctx.label("no accepted honest proof");
            None
        }
    }
}

/// Whether the proved trace is also a witness of another statement (by the reference).
fn still_true(src: &mut Src, p: &Proved, q: &PublicInputs) -> bool {
    if has_rc(q) != has_rc(&p.pubs)
        || q.range_check_min.is_none()
        || q.range_check_max.is_none()
        || q.num_steps == 0
        || q.num_steps > p.main.len()
    {
        return false;
    }
    let ch = Ch::draw(src);
    let st = Statement::new(p.pubs.clone(), AuxPlan::Reference);
    violations(&join(&p.main, build_aux(&p.main, &st, &ch)), q, &ch).is_empty()
}

/// The proof holds for no altered statement.
fn altered(src: &mut Src, ctx: &mut Ctx, p: &Proved, times: usize) -> Res {
    for _ in 0..times {
        let mut q = p.pubs.clone();
        let mut what = alter(src, &mut q, p.main.len(), &p.run);
        ctx.label(what.clone());
        if src.chance(1, 5) {
            what = format!("{what} and {}", alter(src, &mut q, p.main.len(), &p.run));
        }
        if still_true(src, p, &q) {
            ctx.label("still true");
            continue;
        }
        ctx.evals(1);
        let d = format!("{what}: {} {:?}", p.run.describe(), p.opts);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        match guard(|| verify_cairo_proof(&p.proof, &q, &p.opts)) {
            Ok(false) => {}
            Ok(true) => return fail("other-statement", format!("accepted with altered {d}")),
            Err(m) => return fail("verify-crash", format!("{m}: altered {d}")),
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C16",
        "a case counts when the proved trace does not satisfy the altered statement by the reference constraint system; distinct by run and alteration",
    );
    // what a proof is bound to: the statement names every cell of program and output
    let n = c.n(4000, 60_000);
    c.run("statement of a run", n, |src, ctx| {
        let program = match src.upto(9) {
            0 => src.usize(200, 5000),
            1 | 2 => src.usize(30, 300),
            _ => src.usize(1, 40),
        };
        let len = match src.upto(9) {
            0 => src.upto(3000),
            1 | 2 => src.range(20, 300),
            _ => src.upto(24),
        };
        let start = program as u64 + 1 + if src.bool() { src.upto(50) } else { src.upto(1 << 50) };
        let mut data: std::collections::HashMap<u64, FE> = Default::default();
        for a in (1..=program as u64 + 3).chain(start..start + len) {
            data.insert(a, fe(src));
        }
        for _ in 0..src.upto(5) {
            data.entry(src.range(1, start + len + 10)).or_insert(FE::from(77));
        }
        let mut segments = lambdaworks_stark::cairo::air::MemorySegmentMap::new();
        let output = src.chance(3, 4);
        if output {
            segments.insert(MemorySegment::Output, start..start + len);
        }
        if src.chance(1, 3) {
            segments.insert(MemorySegment::RangeCheck, start + len..start + len + src.upto(20));
        }
        let steps = src.usize(1, 20);
        let rows: Vec<[u64; 3]> = (0..steps).map(|_| [src.u64(), src.u64(), src.u64()]).collect();
        let bytes: Vec<u8> = rows.iter().flatten().flat_map(|v| v.to_le_bytes()).collect();
        let regs = lambdaworks_stark::cairo::register_states::RegisterStates::from_bytes_le(&bytes).unwrap();
        let mem = lambdaworks_stark::cairo::cairo_mem::CairoMemory::new(data.clone());
        let d = format!("{steps} steps, program of {program}, output {output} {start}+{len}");
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(format!("output of {}", if !output { "nothing" } else if len > 16 { "more than 16 cells" } else { "up to 16 cells" }));
        let p = match guard(|| PublicInputs::from_regs_and_mem(&regs, &mem, program, &segments)) {
            Ok(p) => p,
            Err(m) => return fail("statement-crash", format!("{m}: {d}")),
        };
        let mut want: std::collections::HashMap<FE, FE> = Default::default();
        for a in 1..=program as u64 {
            want.insert(FE::from(a), data[&a].clone());
        }
        if output {
            for a in start..start + len {
                want.insert(FE::from(a), data[&a].clone());
            }
        }
        for (a, v) in &want {
            match p.public_memory.get(a) {
                None => return fail("cell-left-out", format!("the statement leaves cell {} out: {d}", short(a))),
                Some(x) => ensure!(x == v, "cell-wrong", "cell {} is stated as {}: {d}", short(a), short(x)),
            }
        }
        ensure!(p.public_memory.len() == want.len(), "cell-added", "{} cells stated instead of {}: {d}", p.public_memory.len(), want.len());
        let (first, last) = (rows[0], rows[steps - 1]);
        ensure!(
            p.ap_init == FE::from(first[0]) && p.fp_init == FE::from(first[1]) && p.pc_init == FE::from(first[2]),
            "initial-registers",
            "{d}"
        );
        ensure!(p.ap_final == FE::from(last[0]) && p.pc_final == FE::from(last[2]), "final-registers", "{d}");
        ensure!(p.num_steps == steps && p.memory_segments == segments, "steps-or-segments", "{} steps, segments {:?}: {d}", p.num_steps, p.memory_segments);
        Ok(())
    });
    let n = c.n(3000, 50_000);
    c.run("altered statements", n, |src, ctx| {
        let Some(p) = proved(src, ctx) else { return Ok(()) };
        altered(src, ctx, &p, 10)
    });
    // every cell of a large program and of a long output counts
    let n = c.n(100, 1500);
    c.run("altered statements about large programs", n, |src, ctx| {
        let mut cfg = vh::cairo_faults::large(src);
        if src.chance(1, 5) {
            cfg.max_program = 3000;
            cfg.max_output = 700;
        }
        let Some(p) = proved_in(src, ctx, cfg) else { return Ok(()) };
        let len = p.run.output.as_ref().map_or(0, |r| r.end - r.start);
        ctx.label(format!("program 2^{}, output 2^{}", p.run.program_len.ilog2(), len.max(1).ilog2()));
        altered(src, ctx, &p, 40)
    });
    // statements about thousands of steps, put to the crate's constraint system without a proof
    let n = c.n(6, 60);
    c.run("altered statements about long runs", n, |src, ctx| {
        let most = *src.pick(&[8000, 8000, 14_000]);
        let steps = src.usize(4200, most);
        let run = cairo::counting(src, steps);
        let d = run.describe();
        let mut pubs = run.public();
        let t = match guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        let opts = ProofOptions::default_test_options();
        let ch = Ch::draw(src);
        let main = rows(&t);
        let st = Statement::new(pubs.clone(), AuxPlan::Reference);
        let full = join(&main, build_aux(&main, &st, &ch));
        for _ in 0..8 {
            let mut q = pubs.clone();
            let what = match src.upto(2) {
                0 => {
                    // the statement ends where the run passes 2^k steps earlier or later
                    let k = 1usize << src.usize(4, 13);
                    let at = (steps - 1).checked_sub(k).unwrap_or(k);
                    let r = &run.regs[at];
                    q.pc_final = FE::from(r.pc);
                    if src.bool() {
                        q.ap_final = FE::from(r.ap);
                    }
                    format!("final registers of step {at}")
                }
                1 => {
                    q.num_steps = src.usize(1, steps + 1);
                    format!("{} steps", q.num_steps)
                }
                _ => alter(src, &mut q, full.len(), &run),
            };
            if has_rc(&q) || q.range_check_min.is_none() || q.range_check_max.is_none() || q.num_steps == 0 || q.num_steps > full.len() {
                continue;
            }
            if violations(&full, &q, &ch).is_empty() {
                ctx.label("still true");
                continue;
            }
            let d = format!("{what}: {d}");
            ctx.sample(d.clone());
            ctx.nontrivial(d.as_bytes());
            ctx.evals(1);
            match guard(|| crate_violations(&full, &q, &ch, &opts)) {
                Ok(v) => ensure!(!v.is_empty(), "other-statement", "no constraint violated by altered {d}"),
                Err(m) => return fail("verify-crash", format!("{m}: altered {d}")),
            }
        }
        Ok(())
    });
    // registers of a step 2^k earlier or later, of runs too long for narrow step counts
    let n = c.n(40, 400);
    c.run("registers of other steps of long runs", n, |src, ctx| {
        let steps = if src.chance(1, 4) { src.usize(66_000, 80_000) } else { src.usize(4200, 9000) };
        let run = cairo::counting(src, steps);
        let d = run.describe();
        let mut pubs = run.public();
        let Ok(t) = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) else { return Ok(()) };
        let opts = ProofOptions::default_test_options();
        let ch = Ch::draw(src);
        let main = rows(&t);
        for k in 3..17 {
            for up in [false, true] {
                for which in 0..4 {
                    let Some(at) = (if up { Some(steps - 1 + (1 << k)) } else { (steps - 1).checked_sub(1 << k) }) else { continue };
                    if at >= main.len() {
                        continue;
                    }
                    let mut q = pubs.clone();
                    if which == 3 {
                        q.num_steps = at + 1;
                    }
                    if which == 0 || which == 2 {
                        q.pc_final = main[at][PC].clone();
                    }
                    if which == 1 || which == 2 {
                        q.ap_final = main[at][AP].clone();
                    }
                    let last = &main[q.num_steps - 1];
                    if last[PC] == q.pc_final && last[AP] == q.ap_final {
                        continue;
                    }
                    let d = format!("{} of step {at} of {d}", ["pc", "ap", "registers", "step count"][which]);
                    ctx.sample(d.clone());
                    ctx.nontrivial(d.as_bytes());
                    ctx.evals(1);
                    match guard(|| crate_boundary(&main, &q, &ch, &opts)) {
                        Ok(v) if !v.is_empty() => {}
                        Ok(_) => {
                            let st = Statement::new(pubs.clone(), AuxPlan::Reference);
                            let full = join(&main, build_aux(&main, &st, &ch));
                            let v = guard(|| crate_violations(&full, &q, &ch, &opts));
                            ensure!(v.is_ok_and(|v| !v.is_empty()), "other-statement", "no constraint violated by {d}");
                        }
                        Err(m) => return fail("verify-crash", format!("{m}: {d}")),
                    }
                }
            }
        }
        Ok(())
    });
    let n = c.n(1000, 15_000);
    c.run("another run's statement", n, |src, ctx| {
        let Some(p) = proved(src, ctx) else { return Ok(()) };
        let other = {
            let cfg = small(src);
            cairo::generate(src, &cfg)
        };
        let mut q = other.public();
        // as close as possible: same bounds
        q.range_check_min = p.pubs.range_check_min;
        q.range_check_max = p.pubs.range_check_max;
        match src.upto(3) {
            0 => q.public_memory = p.pubs.public_memory.clone(),
            1 => {
                q.pc_init = p.pubs.pc_init.clone();
                q.ap_init = p.pubs.ap_init.clone();
                q.pc_final = p.pubs.pc_final.clone();
                q.ap_final = p.pubs.ap_final.clone();
                q.num_steps = p.pubs.num_steps;
                q.memory_segments = p.pubs.memory_segments.clone();
            }
            _ => {}
        }
        if still_true(src, &p, &q) {
            return Ok(());
        }
        let d = format!("{} verified as {}", p.run.describe(), other.describe());
        ctx.nontrivial(d.as_bytes());
        let r = guard(|| verify_cairo_proof(&p.proof, &q, &p.opts));
        ensure!(r == Ok(false), "other-statement", "{r:?}: {d}");
        Ok(())
    });
    let n = c.n(1500, 25_000);
    c.run("prover works with the altered statement", n, |src, ctx| {
        let run = {
            let cfg = small(src);
            cairo::generate(src, &cfg)
        };
        let mut pubs = run.public();
        let Ok(t) = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) else { return Ok(()) };
        let main = t.rows();
        let mut q = pubs.clone();
        let what = alter(src, &mut q, main.len(), &run);
        let plan = if src.bool() { AuxPlan::Crate } else { AuxPlan::Reference };
        let shadow = (plan == AuxPlan::Reference && src.bool()).then(|| pubs.clone());
        let case = Case { main, st: Statement { shadow, ..Statement::new(q.clone(), plan) }, run };
        if has_rc(&q) != has_rc(&pubs) || q.range_check_min.is_none() || q.range_check_max.is_none() || q.num_steps == 0 {
            return Ok(());
        }
        let opts = sys::options(src, case.n(), 2, BITS);
        let ch = Ch::draw(src);
        let Ok(full) = guard(|| case.full(&ch, &opts)) else {
            ctx.label("no auxiliary columns");
            return Ok(());
        };
        if q.num_steps <= case.n() && violations(&full, &q, &ch).is_empty() {
            ctx.label("still true");
            return Ok(());
        }
        let d = format!("{what}: {} {:?}", case.run.describe(), opts);
        ctx.nontrivial(d.as_bytes());
        let mut proofs = Vec::new();
        if let Ok(Ok(p)) = guard(|| lambdaworks_stark::starks::prover::prove::<F, Lying>(&t, &case.st, &opts)) {
            proofs.push(("crate", p));
        }
        if case.n() <= 64 && q.num_steps <= case.n() && src.chance(1, 3) {
            let cheat = if src.bool() { Cheat::OmitViolated } else { Cheat::OmitViolatedAndClaim };
            if let Ok(Some(o)) = guard(|| adv::prove::<Lying>(src, &t, &case.st, &opts, &cheat)) {
                if o.effective {
                    proofs.push(("adversary", o.proof));
                }
            }
        }
        for (who, p) in proofs {
            ctx.label(format!("proof by {who}"));
            ctx.evals(1);
            let r = guard(|| verify_cairo_proof(&p, &q, &opts));
            ensure!(r == Ok(false), "false-statement", "{who}: {r:?}: {d}");
        }
        Ok(())
    });
    // a public memory cell chosen for the challenges, so that the product of the public memory is zero
    let n = c.n(150, 2500);
    c.run("a public memory without a product", n, |src, ctx| {
        let Some(p) = proved(src, ctx) else { return Ok(()) };
        let mut t = DefaultTranscript::new();
        t.append(&p.proof.lde_trace_merkle_roots[0]);
        let rap = CairoAIR::new(p.main.len(), &p.pubs, &p.opts).build_rap_challenges(&mut t);
        let mut q = p.pubs.clone();
        if src.bool() {
            let at: Vec<FE> = q.public_memory.keys().cloned().collect();
            let a = at.into_iter().min_by_key(|a| a.representative()).unwrap();
            q.public_memory.insert(a, (rap.z_memory - a) * rap.alpha_memory.inv());
        } else {
            let v = fe(src);
            q.public_memory.insert(rap.z_memory - rap.alpha_memory * v, v);
        }
        let st = Statement { shadow: Some(p.pubs.clone()), ..Statement::new(q.clone(), AuxPlan::Vanish) };
        let t = TraceTable::new(p.main.concat(), p.main[0].len());
        let d = p.run.describe();
        ctx.nontrivial(d.as_bytes());
        let mut proofs = vec![("the honest proof", mutate::clone_proof(&p.proof))];
        if let Ok(Ok(p)) = guard(|| lambdaworks_stark::starks::prover::prove::<F, Lying>(&t, &st, &p.opts)) {
            proofs.push(("a product of zero", p));
        }
        for (who, m) in proofs {
            ctx.label(who);
            ctx.evals(1);
            let r = guard(|| verify_cairo_proof(&m, &q, &p.opts));
            // a panic is for C08
            ensure!(r != Ok(true), "vanishing-public-memory", "{who}: {r:?}: {d}");
        }
        Ok(())
    });
    // statements chosen after the challenges are known, and fields nothing looks at (listed findings)
    let n = c.n(200, 3000);
    c.run("after the fact", n, |src, ctx| {
        let Some(p) = proved(src, ctx) else { return Ok(()) };
        let air = CairoAIR::new(p.main.len(), &p.pubs, &p.opts);
        let mut t = DefaultTranscript::new();
        t.append(&p.proof.lde_trace_merkle_roots[0]);
        let rap = air.build_rap_challenges(&mut t);
        let mut q = p.pubs.clone();
        let sig = match src.upto(3) {
            0 => {
                let c = cells(&q);
                if c.len() < 2 {
                    return Ok(());
                }
                let i = src.usize(0, c.len() - 1);
                let j = (i + src.usize(1, c.len() - 1)) % c.len();
                let (z, alpha) = (&rap.z_memory, &rap.alpha_memory);
                let term = |a: &FE, v: &FE| z - a - alpha * v;
                let vi = fe_other(src, &c[i].1);
                // term(i, vi) term(j, vj) = what it was
                let want = term(&c[i].0, &c[i].1) * term(&c[j].0, &c[j].1) * term(&c[i].0, &vi).inv();
                let vj = (z - &c[j].0 - want) * alpha.inv();
                q.public_memory.insert(c[i].0.clone(), vi);
                q.public_memory.insert(c[j].0.clone(), vj);
                "adaptive-public-memory"
            }
            1 => {
                let cs = air.boundary_constraints(&rap).constraints;
                let i = src.usize(0, 3);
                let j = (i + src.usize(1, 3)) % 4;
                // the order of the constraints is found out, not assumed
                let fields = |q: &PublicInputs| [q.pc_init.clone(), q.ap_init.clone(), q.pc_final.clone(), q.ap_final.clone()];
                let old = fields(&q);
                let place = |k: usize| {
                    let mut m = p.pubs.clone();
                    let f = [&mut m.pc_init, &mut m.ap_init, &mut m.pc_final, &mut m.ap_final];
                    let v = f.into_iter().nth(k).unwrap();
                    *v = &*v + FE::one();
                    let air = CairoAIR::new(p.main.len(), &m, &p.opts);
                    let other = air.boundary_constraints(&rap).constraints;
                    (0..cs.len().min(other.len())).find(|x| cs[*x].value != other[*x].value)
                };
                let (Some(pi), Some(pj)) = (place(i), place(j)) else { return Ok(()) };
                let new = fe_other(src, &old[i]);
                let Some(comp) = adv::compensate(&air, &p.proof, &cs, (pi, &new), pj) else { return Ok(()) };
                for (k, v) in [(i, new), (j, comp)] {
                    let f = [&mut q.pc_init, &mut q.ap_init, &mut q.pc_final, &mut q.ap_final];
                    *f.into_iter().nth(k).unwrap() = v;
                }
                "adaptive-boundary-values"
            }
            2 => {
                q.fp_init = fe_other(src, &q.fp_init.clone());
                "fp-init-unbound"
            }
            _ => {
                if q.memory_segments.remove(&MemorySegment::Output).is_none() {
                    q.memory_segments.insert(MemorySegment::Output, 1..1 + src.range(1, 5));
                }
                "memory-segments-unbound"
            }
        };
        let d = format!("{sig}: {}", p.run.describe());
        ctx.label(sig);
        let r = guard(|| verify_cairo_proof(&p.proof, &q, &p.opts));
        ctx.report(match r {
            Ok(true) => fail(sig, format!("accepted: {d}")),
            Ok(false) => Ok(()),
            Err(m) => fail("verify-crash", format!("{m}: {d}")),
        })
    });
    c.assume("false statements are told from true ones by the reference constraint system evaluated on the proved trace; acceptance by chance has probability about 2^-34");
    c.finish()
}
