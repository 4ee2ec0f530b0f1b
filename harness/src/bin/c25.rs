//! C25: the trace validator agrees with the constraint system.
//! Built with debug assertions: the validator does not exist without them.
#[cfg(not(debug_assertions))]
fn main() {
    eprintln!("this check must be built with debug assertions");
    std::process::exit(3);
}

#[cfg(debug_assertions)]
fn main() {
    checked::main()
}

#[cfg(debug_assertions)]
mod checked {
    use lambdaworks_stark::cairo::air::CairoAIR;
    use lambdaworks_stark::starks::{prover, traits::AIR, verifier};
    use vh::cairo_air::{crate_violations, Ch, Lying};
    use vh::cairo_faults::{case, faulty, small};
    use vh::genair::{self, Cfg, GenAir};
    use vh::sys::{self, Sys, System};
    use vh::*;

    /// An accepted proof of a violating trace has probability about 2^-BITS.
    const BITS: usize = 34;

    fn as_sys(i: &genair::Instance) -> Sys<GenAir> {
        Sys { kind: "generated", desc: i.spec.describe(), pubs: i.pubs(), table: i.table(), min_blowup: i.spec.min_blowup(), alter: None }
    }

    fn row(src: &mut Src, n: usize) -> usize {
        match src.upto(4) {
            0 => src.usize(0, 1.min(n - 1)),
            1 | 2 => n - 1 - src.usize(0, 3.min(n - 1)),
            _ => src.usize(0, n - 1),
        }
    }

    fn agree(ctx: &mut Ctx, said: bool, v: &[String], d: &str) -> Res {
        let short = &v[..v.len().min(3)];
        let d = format!("{d}; violated: {short:?}");
        ctx.evals(1);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(match v.len() {
            0 => "nothing violated",
            1 => "violated in one place",
            _ => "violated in several places",
        });
        if v.len() == 1 {
            ctx.label(if v[0].starts_with('b') { "only a boundary constraint" } else { "only a transition on one row" });
        }
        ensure!(!(said && !v.is_empty()), "invalid-trace-passes", "{d}");
        ensure!(!(!said && v.is_empty()), "valid-trace-refused", "{d}");
        Ok(())
    }

    fn check(src: &mut Src, ctx: &mut Ctx, s: &dyn System, what: &str, prove: bool) -> Res {
        let opts = sys::options_for(src, s, if prove { BITS } else { 0 });
        let d = format!("{what}: {} {:?}", s.describe(), opts);
        let seed = src.bytes(8);
        let (said, v) = match s.judge(&opts, &seed) {
            Ok(x) => x,
            Err(m) => return fail("validator-crash", format!("{m}: {d}")),
        };
        agree(ctx, said, &v, &d)?;
        if !prove {
            return Ok(());
        }
        ctx.evals(1);
        let accepted = match s.prove(&opts) {
            Ok(Some(p)) => s.verify(&p, &opts) == Ok(true),
            _ => false,
        };
        ctx.label(if accepted { "its proof is accepted" } else { "no accepted proof" });
        ensure!(accepted == said, "proof-disagrees", "validator says {said}, an honest proof is {}: {d}", if accepted { "accepted" } else { "not accepted" });
        Ok(())
    }

    /// Alter cells; the description says which.
    fn corrupt(src: &mut Src, inst: &mut genair::Instance) -> String {
        let mut what = Vec::new();
        for _ in 0..src.usize(1, 2) {
            let (r, j) = (row(src, inst.spec.n), src.usize(0, inst.spec.main - 1));
            match src.upto(4) {
                0 => {
                    let i = src.usize(0, inst.spec.bounds.len() - 1);
                    let old = inst.spec.bounds[i].value.clone();
                    inst.spec.bounds[i].value = fe_other(src, &old);
                    what.push(format!("boundary value {i}"));
                }
                1 if inst.spec.aux > 0 => {
                    let aux = src.usize(0, inst.spec.aux - 1);
                    inst.spec.aux_cheat.push((r, aux, fe_nonzero(src)));
                    what.push(format!("aux cell ({r},{aux})"));
                }
                2 => {
                    let cols = inst.constrained_columns();
                    if let Some(c) = cols.get(src.usize(0, cols.len().max(1) - 1)) {
                        let d = fe_nonzero(src);
                        *inst = inst.fault(r, *c, &d);
                        what.push(format!("step ({r},{c}) wrong"));
                    }
                }
                _ => {
                    inst.rows[r][j] = fe_other(src, &inst.rows[r][j].clone());
                    what.push(format!("cell ({r},{j})"));
                }
            }
        }
        format!("{what:?}")
    }

    pub fn main() {
        let mut c = Check::new(
            "C25",
            "every case counts (traces with and without a violated constraint are both verdicts to agree on); distinct by full description of system, options, alteration and violated constraints",
        );
        let cfg = Cfg { min_log: 1, max_log: 5, ..Cfg::default() };
        let n = c.n(12_000, 200_000);
        c.run("generated systems", n, |src, ctx| {
            let mut inst = genair::gen(src, &cfg);
            let mut what = "valid".to_string();
            if src.chance(3, 4) {
                what = corrupt(src, &mut inst);
            }
            if src.chance(1, 3) {
                // the validator has no use for the degree bound: any number of exempt rows
                for t in inst.spec.trans.iter_mut() {
                    t.exempt = match src.upto(3) {
                        0 => 0,
                        1 => inst.spec.n,
                        _ => src.usize(0, inst.spec.n),
                    };
                }
                what = format!("exemptions redrawn, {what}");
            }
            check(src, ctx, &as_sys(&inst), &what, false)
        });
        let n = c.n(1500, 25_000);
        c.run("validator and proof", n, |src, ctx| {
            let mut inst = genair::gen(src, &cfg);
            let mut what = "valid".to_string();
            if src.chance(2, 3) {
                what = corrupt(src, &mut inst);
            }
            check(src, ctx, &as_sys(&inst), &what, true)
        });
        let n = c.n(1500, 25_000);
        c.run("large systems", n, |src, ctx| {
            let mut inst = genair::large(src, 9);
            let mut what = "valid".to_string();
            if src.chance(3, 4) {
                what = if src.bool() {
                    let (r, j) = (src.usize(0, inst.spec.n - 1), src.usize(0, inst.spec.main - 1));
                    inst.rows[r][j] = fe_other(src, &inst.rows[r][j].clone());
                    format!("cell ({r},{j})")
                } else {
                    corrupt(src, &mut inst)
                };
            }
            check(src, ctx, &as_sys(&inst), &what, false)
        });
        let n = c.n(300, 4000);
        c.run("hundreds of constraints", n, |src, ctx| {
            let (log, width) = (src.usize(1, 4), src.usize(200, 700));
            let mut inst = genair::parallel(src, log, width);
            let mut what = "valid".to_string();
            let which = if src.bool() { src.usize(width / 2, width - 1) } else { src.usize(0, width - 1) };
            if src.bool() {
                inst.spec.trans[which].exempt = *src.pick(&[0, 1, 2, inst.spec.n]);
                what = format!("exemptions of {which} redrawn");
            }
            if src.bool() {
                let r = row(src, inst.spec.n);
                inst.rows[r][which] = fe_other(src, &inst.rows[r][which].clone());
                what = format!("{what}, cell ({r},{which})");
            }
            check(src, ctx, &as_sys(&inst), &what, false)
        });
        let n = c.n(80, 600);
        c.run("very long traces", n, |src, ctx| {
            let mut inst = genair::gen(src, &Cfg { min_log: 10, max_log: 14, max_main: 2, ..Cfg::default() });
            let mut what = "valid".to_string();
            if src.chance(4, 5) {
                let (n, m) = (inst.spec.n, inst.spec.main);
                // somewhere in the second half, more often than not
                let (r, j) = (if src.chance(2, 3) { src.usize(n / 2, n - 1) } else { src.usize(0, n - 1) }, src.usize(0, m - 1));
                inst.rows[r][j] = fe_other(src, &inst.rows[r][j].clone());
                what = format!("cell ({r},{j})");
            }
            check(src, ctx, &as_sys(&inst), &what, false)
        });
        let n = c.n(1500, 25_000);
        c.run("example systems", n, |src, ctx| {
            let s = sys::example(src, 5);
            let prove = src.chance(1, 4);
            if src.chance(1, 3) {
                return check(src, ctx, &*s, "valid", prove);
            }
            let mut t = sys::clone_table(s.table());
            let (r, k) = (row(src, s.n()), src.usize(0, s.main_width() - 1));
            let i = r * s.main_width() + k;
            t.table[i] = fe_other(src, &t.table[i].clone());
            check(src, ctx, &*s.with_table(t), &format!("cell ({r},{k})"), prove)
        });
        let n = c.n(2500, 40_000);
        c.run("cairo", n, |src, ctx| {
            let (case, what) = if src.chance(1, 4) {
                let cfg = small(src);
                match case(src, &cfg) {
                    Some(c) => (c, "valid".to_string()),
                    None => return Ok(()),
                }
            } else {
                match faulty(src, ctx) {
                    Some(x) => x,
                    None => return Ok(()),
                }
            };
            let prove = src.chance(1, 8);
            let opts = sys::options(src, case.n(), 2, if prove { BITS } else { 0 });
            let ch = Ch::draw(src);
            let Ok(full) = guard(|| case.full(&ch, &opts)) else {
                ctx.label("no auxiliary columns");
                return Ok(());
            };
            let Ok(v) = guard(|| crate_violations(&full, &case.st.pubs, &ch, &opts)) else { return Ok(()) };
            let v: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect();
            let d = format!("{what}: {:?} {}", opts, case.run.describe());
            let air = CairoAIR::new(case.n(), &case.st.pubs, &opts);
            let said = match sys::verdict(&air, &full, &ch.real()) {
                Ok(x) => x,
                Err(m) => return fail("validator-crash", format!("{m}: {d}")),
            };
            agree(ctx, said, &v, &d)?;
            if prove {
                ctx.evals(1);
                let t = vh::cairo_air::table(&case.main);
                let accepted = guard(|| match prover::prove::<F, Lying>(&t, &case.st, &opts) {
                    Ok(p) => verifier::verify::<F, CairoAIR>(&p, &case.st.pubs, &opts),
                    Err(_) => false,
                }) == Ok(true);
                ctx.label(if accepted { "its proof is accepted" } else { "no accepted proof" });
                ensure!(accepted == said, "proof-disagrees", "validator says {said}, accepted is {accepted}: {d}");
            }
            Ok(())
        });
        c.assume("a violating trace gets an accepted proof with probability about 2^-34 at most");
        c.finish()
    }
}
