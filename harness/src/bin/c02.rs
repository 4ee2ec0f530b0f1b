//! C02: a trace that violates any constraint never yields an accepted proof.
use vh::adv::Cheat;
use vh::genair::{self, Cfg, Kind};
use vh::sys::{self, Sys, System};
use vh::*;

/// Soundness error of one accepted false proof is about 2^-BITS.
const BITS: usize = 34;

fn never_accepted(src: &mut Src, ctx: &mut Ctx, s: &dyn System, what: &str, adversaries: &[Cheat]) -> Res {
    let opts = sys::options_for(src, s, BITS);
    let d = format!("{what}: {} under {:?}", s.describe(), opts);
    ctx.sample(d.clone());
    ctx.nontrivial(d.as_bytes());
    ctx.evals(1);
    match s.prove(&opts) {
        // no proof at all is a fine answer
        Err(_) => ctx.label("prover panicked"),
        Ok(None) => ctx.label("prover refused"),
        Ok(Some(p)) => {
            ctx.label("prover produced a proof");
            match s.verify(&p, &opts) {
                Ok(false) => {}
                Ok(true) => return fail("accepted", format!("proof of a violating trace accepted: {d}")),
                Err(m) => return fail("verify-crash", format!("{m}: {d}")),
            }
        }
    }
    for c in adversaries {
        if let Some(o) = s.adversary(src, &opts, c) {
            if !o.effective {
                ctx.label("adversary without effect");
                continue;
            }
            ctx.evals(1);
            ctx.label(format!("adversary {c:?}"));
            match s.verify(&o.proof, &opts) {
                Ok(false) => {}
                Ok(true) => return fail("forged-accepted", format!("{c:?} accepted: {d}")),
                Err(m) => return fail("verify-crash", format!("{m}: {c:?} {d}")),
            }
        }
    }
    Ok(())
}

fn as_sys(i: &genair::Instance) -> Sys<genair::GenAir> {
    Sys { kind: "generated", desc: i.spec.describe(), pubs: i.pubs(), table: i.table(), min_blowup: i.spec.min_blowup(), alter: None }
}

/// Rows near the ends are where exemptions and wrap-around go wrong.
fn row(src: &mut Src, n: usize) -> usize {
    match src.upto(4) {
        0 => src.usize(0, 1.min(n - 1)),
        1 | 2 => n - 1 - src.usize(0, 3.min(n - 1)),
        _ => src.usize(0, n - 1),
    }
}

fn cheats(src: &mut Src) -> Vec<Cheat> {
    let mut v = vec![Cheat::OmitViolated];
    match src.upto(2) {
        0 => v.push(Cheat::ForgedComposition),
        1 => v.push(Cheat::ForgedCompositionAndClaims),
        _ => v.push(Cheat::OmitViolatedAndClaim),
    }
    v
}

fn main() {
    let mut c = Check::new(
        "C02",
        "a case counts when the direct row-by-row oracle says the trace violates at least one constraint; distinct by full description of system, options and alteration",
    );
    let cfg = Cfg { min_log: 1, max_log: 5, ..Cfg::default() };
    let n = c.n(5000, 80_000);
    c.run("one wrong step", n, |src, ctx| {
        let inst = genair::gen(src, &cfg);
        let cols = inst.constrained_columns();
        if cols.is_empty() {
            ctx.label("no determined column");
            return Ok(());
        }
        let col = *src.pick(&cols);
        let r = row(src, inst.spec.n);
        let delta = fe_nonzero(src);
        let bad = inst.fault(r, col, &delta);
        let v = genair::violations(&bad.spec, &bad.rows);
        if v.is_empty() {
            ctx.label("the step is exempt");
            return Ok(());
        }
        ctx.label(format!("{} constraint(s) violated", v.len().min(3)));
        let cs = cheats(src);
        never_accepted(src, ctx, &as_sys(&bad), &format!("step ({r},{col}) wrong by {}: {v:?}", short(&delta)), &cs)
    });
    let n = c.n(2500, 40_000);
    c.run("altered cells", n, |src, ctx| {
        let mut inst = genair::gen(src, &cfg);
        let mut what = Vec::new();
        for _ in 0..src.usize(1, 3) {
            let (r, j) = (row(src, inst.spec.n), src.usize(0, inst.spec.main - 1));
            match src.upto(3) {
                0 => {
                    let r2 = src.usize(0, inst.spec.n - 1);
                    inst.rows.swap(r, r2);
                    what.push(format!("rows {r},{r2} swapped"));
                }
                _ => {
                    inst.rows[r][j] = fe_other(src, &inst.rows[r][j].clone());
                    what.push(format!("cell ({r},{j})"));
                }
            }
        }
        let v = genair::violations(&inst.spec, &inst.rows);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        let cs = cheats(src);
        never_accepted(src, ctx, &as_sys(&inst), &format!("{what:?}: {v:?}"), &cs)
    });
    let n = c.n(2000, 30_000);
    c.run("boundary only", n, |src, ctx| {
        let mut inst = genair::gen(src, &cfg);
        let main: Vec<usize> = (0..inst.spec.bounds.len()).filter(|i| inst.spec.bounds[*i].col < inst.spec.main).collect();
        let i = *src.pick(&main);
        let old = inst.spec.bounds[i].value.clone();
        inst.spec.bounds[i].value = fe_other(src, &old);
        let v = genair::violations(&inst.spec, &inst.rows);
        assert!(!v.is_empty());
        let cs = cheats(src);
        never_accepted(src, ctx, &as_sys(&inst), &format!("boundary {i}: {v:?}"), &cs)
    });
    let n = c.n(2000, 30_000);
    c.run("auxiliary columns", n, |src, ctx| {
        let mut inst = genair::gen(src, &cfg);
        for _ in 0..40 {
            if inst.spec.aux > 0 {
                break;
            }
            inst = genair::gen(src, &cfg);
        }
        if inst.spec.aux == 0 {
            return Ok(());
        }
        let what = if src.bool() {
            // the prover lies in a cell of an auxiliary column
            let aux = src.usize(0, inst.spec.aux - 1);
            let r = row(src, inst.spec.n);
            let d = fe_nonzero(src);
            inst.spec.aux_cheat.push((r, aux, d));
            format!("aux cell ({r},{aux})")
        } else {
            // the main columns no longer match what the auxiliary column accumulates
            let (r, col) = (row(src, inst.spec.n), {
                let t: Vec<usize> = inst.spec.trans.iter().filter_map(|t| match &t.kind {
                    Kind::Perm { b, .. } => Some(*b),
                    Kind::Sum { c, .. } => Some(*c),
                    _ => None,
                }).collect();
                *src.pick(&t)
            });
            inst.rows[r][col] = fe_other(src, &inst.rows[r][col].clone());
            for b in inst.spec.bounds.iter_mut() {
                if b.col == col {
                    b.value = inst.rows[b.step][col].clone();
                }
            }
            format!("cell ({r},{col}) of an accumulated column")
        };
        let v = genair::violations(&inst.spec, &inst.rows);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        ctx.label(if inst.spec.aux_cheat.is_empty() { "main cell" } else { "aux cell" });
        let cs = cheats(src);
        never_accepted(src, ctx, &as_sys(&inst), &format!("{what}: {v:?}"), &cs)
    });
    // Each constraint has coefficients of its own: errors that add up to nothing under equal
    // coefficients do not cancel.
    let n = c.n(2500, 40_000);
    c.run("opposite violations", n, |src, ctx| {
        let log = src.usize(1, 3);
        let width = src.usize(2, 70);
        let mut inst = genair::parallel(src, log, width);
        assert!(genair::violations(&inst.spec, &inst.rows).is_empty());
        let n = inst.spec.n;
        // two columns some distance apart, or several adding up to nothing
        let d = if src.bool() { 1usize << src.upto(6) } else { src.usize(1, 69) };
        let d = d.min(width - 1);
        let a = src.usize(0, width - 1 - d);
        let mut err: Vec<(usize, FE)> = vec![];
        let delta = fe_nonzero(src);
        if src.chance(1, 4) {
            let k = src.usize(2, width);
            let mut sum = FE::zero();
            for j in 0..k - 1 {
                let e = fe_nonzero(src);
                sum = sum + &e;
                err.push((j, e));
            }
            err.push((k - 1, -sum));
        } else {
            err.push((a, delta.clone()));
            err.push((a + d, -delta));
        }
        let what = match src.upto(3) {
            0 => {
                for (j, e) in &err {
                    inst.spec.bounds[*j].value = &inst.spec.bounds[*j].value + e;
                }
                "boundary values"
            }
            1 => {
                // the whole column moves: only the boundary value is wrong
                for (j, e) in &err {
                    for r in inst.rows.iter_mut() {
                        r[*j] = &r[*j] + e;
                    }
                }
                "shifted columns"
            }
            _ => {
                let from = src.usize(1, n - 1);
                for (j, e) in &err {
                    for r in inst.rows[from..].iter_mut() {
                        r[*j] = &r[*j] + e;
                    }
                }
                "steps"
            }
        };
        let v = genair::violations(&inst.spec, &inst.rows);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        ctx.label(what);
        let cols: Vec<usize> = err.iter().map(|e| e.0).collect();
        never_accepted(src, ctx, &as_sys(&inst), &format!("{what} of columns {cols:?} of {width}"), &[])
    });
    // a violation far from the first rows, columns and constraints
    let n = c.n(500, 8000);
    let max_log = c.n(9, 11) as usize;
    c.run("large in one way", n, |src, ctx| {
        let inst = genair::large(src, max_log);
        let cols = inst.constrained_columns();
        let r = match src.upto(3) {
            0 => row(src, inst.spec.n),
            _ => src.usize(0, inst.spec.n - 1),
        };
        let (bad, what) = match src.upto(3) {
            0 | 1 if !cols.is_empty() => {
                let col = *src.pick(&cols);
                (inst.fault(r, col, &fe_nonzero(src)), format!("step ({r},{col}) wrong"))
            }
            0 | 1 => {
                // everything that follows from the wrong cell follows
                let mut bad = inst;
                let (col, gap) = (src.usize(0, bad.spec.main - 1), bad.spec.offsets.iter().max().copied().unwrap_or(0).max(1));
                let d = fe_nonzero(src);
                for r in (r..bad.spec.n).step_by(gap) {
                    bad.rows[r][col] = &bad.rows[r][col] + &d;
                }
                for b in bad.spec.bounds.iter_mut().filter(|b| b.col == col) {
                    b.value = bad.rows[b.step][col].clone();
                }
                (bad, format!("step ({r},{col}) wrong"))
            }
            2 => {
                let mut bad = inst;
                let col = src.usize(0, bad.spec.main - 1);
                bad.rows[r][col] = fe_other(src, &bad.rows[r][col].clone());
                (bad, format!("cell ({r},{col})"))
            }
            _ => {
                let mut bad = inst;
                let i = src.usize(0, bad.spec.bounds.len() - 1);
                bad.spec.bounds[i].value = fe_other(src, &bad.spec.bounds[i].value.clone());
                (bad, format!("boundary {i}"))
            }
        };
        let v = genair::violations(&bad.spec, &bad.rows);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        let cs = if bad.spec.n <= 64 && bad.spec.main < 100 { vec![Cheat::OmitViolated] } else { vec![] };
        never_accepted(src, ctx, &as_sys(&bad), &format!("{what}: {v:?}"), &cs)
    });
    let n = c.n(24, 200);
    c.run("hundreds of columns", n, |src, ctx| {
        let (log, width) = (src.usize(1, 3), src.usize(400, 1500));
        let mut bad = genair::parallel(src, log, width);
        let col = width - 1 - src.usize(0, width / 2);
        let r = row(src, bad.spec.n);
        let d = fe_nonzero(src);
        let what = if src.bool() {
            bad.spec.bounds[col].value = &bad.spec.bounds[col].value + &d;
            format!("boundary of column {col}")
        } else {
            bad.rows[r][col] = &bad.rows[r][col] + &d;
            format!("cell ({r},{col})")
        };
        let v = genair::violations(&bad.spec, &bad.rows);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        never_accepted(src, ctx, &as_sys(&bad), &format!("{what} of {width}: {v:?}"), &[])
    });
    // rows a narrow integer cannot name: the claim holds for the row of the truncated number
    let n = c.n(4, 24);
    c.run("more than 2^16 rows", n, |src, ctx| {
        let mut bad = genair::parallel(src, 17, 1);
        let n = bad.spec.n;
        let step = src.usize(n / 2, n - 1);
        bad.spec.bounds[0].step = step;
        bad.spec.bounds[0].value = bad.rows[step - n / 2][0].clone();
        let mut what = format!("boundary at {step} holds at {}", step - n / 2);
        if src.chance(1, 4) {
            // the boundary claim is right, a step far from the first rows is not
            let r = src.usize(n / 2, n - 2);
            let d = fe_nonzero(src);
            for row in bad.rows[r..].iter_mut() {
                row[0] = &row[0] + &d;
            }
            bad.spec.bounds[0].value = bad.rows[step][0].clone();
            what = format!("step {r} wrong");
        }
        let v = genair::violations(&bad.spec, &bad.rows);
        if v.is_empty() {
            ctx.label("still valid");
            return Ok(());
        }
        never_accepted(src, ctx, &as_sys(&bad), &format!("{what}: {v:?}"), &[])
    });
    let n = c.n(1000, 15_000);
    c.run("example systems", n, |src, ctx| {
        let which = src.upto(4);
        let s = sys::example_of(src, which, 5);
        let mut t = sys::clone_table(s.table());
        let (n, w) = (s.n(), s.main_width());
        let r = row(src, n);
        let (r, col) = match which {
            // rows of the padding are not constrained: the sequence ends after `steps` rows;
            // nothing closes the running product over column 1 (its last row is exempt)
            3 => {
                let steps = (0..n).rev().find(|r| t.table[r * w] != FE::zero()).map_or(0, |r| r + 1);
                (r.min(steps.saturating_sub(1)), 0)
            }
            _ => (r, src.usize(0, w - 1)),
        };
        let old = t.table[r * w + col].clone();
        let new = fe_other(src, &old);
        // DummyAIR's column 0 only has to be boolean
        if which == 4 && col == 0 && (new == FE::zero() || new == FE::one()) {
            return Ok(());
        }
        t.table[r * w + col] = new;
        let bad = s.with_table(t);
        let cs = cheats(src);
        never_accepted(src, ctx, &*bad, &format!("cell ({r},{col}) of {}", s.kind()), &cs)
    });
    let n = c.n(1000, 15_000);
    c.run("forged composition of a valid trace", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = sys::options_for(src, &*s, BITS);
        let ch = *src.pick(&[0, 1, 2]);
        let ch = [Cheat::ForgedComposition, Cheat::ForgedCompositionAndClaims, Cheat::ForgedTraceClaim][ch].clone();
        let d = format!("{ch:?}: {} {:?}", s.describe(), opts);
        if let Some(o) = s.adversary(src, &opts, &ch) {
            ctx.nontrivial(d.as_bytes());
            ctx.label(format!("adversary {ch:?}"));
            ensure!(s.verify(&o.proof, &opts) == Ok(false), "forged-accepted", "{d}");
        }
        Ok(())
    });
    // the adversary must be in step with the verifier, or its forgeries prove nothing
    let n = c.n(100, 400);
    c.run("adversary in step", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = sys::options_for(src, &*s, 0);
        if let Some(o) = s.adversary(src, &opts, &Cheat::None) {
            let ok = s.verify(&o.proof, &opts) == Ok(true);
            ctx.label(if ok { "honest mode accepted" } else { "honest mode NOT accepted" });
        }
        Ok(())
    });
    c.assume("accepted with probability about 2^-34 at most per false proof; independent oracle evaluates every constraint on every row");
    c.finish()
}
