//! C17: the execution trace is faithful to the Cairo machine.
use lambdaworks_stark::cairo::execution_trace::build_cairo_execution_trace;
use vh::cairo::{self, to_u64, Cfg};
use vh::*;

const NAMES: [&str; 34] = [
    "flag0", "flag1", "flag2", "flag3", "flag4", "flag5", "flag6", "flag7", "flag8", "flag9", "flag10", "flag11", "flag12", "flag13",
    "flag14", "flag15", "res", "ap", "fp", "pc", "dst_addr", "op0_addr", "op1_addr", "inst", "dst", "op0", "op1", "off_dst", "off_op0",
    "off_op1", "t0", "t1", "mul", "selector",
];

fn faithful(_src: &mut Src, ctx: &mut Ctx, run: &cairo::Run) -> Res {
    ctx.sample(run.describe());
    for (i, _) in &run.steps {
        ctx.label(i.kind());
    }
    let got = match guard(|| build_cairo_execution_trace(&run.registers(), &run.memory(), &run.public())) {
        Ok(t) => t,
        Err(m) => return fail("crash", format!("{m}: {}", run.describe())),
    };
    let want = run.rows();
    // a range check segment with more cells than steps needs rows which are no steps
    let cells = run.rc.as_ref().map_or(0, |r| (r.end - r.start) as usize);
    let range = want.len()..=want.len().max(cells);
    ensure!(range.contains(&got.n_rows()), "rows", "{} rows for {} steps and {cells} cells: {}", got.n_rows(), want.len(), run.describe());
    let got = rows(&got);
    for (k, r) in got.iter().enumerate().skip(want.len()) {
        ensure!(r[33] == FE::zero(), "selector", "row {k} after the last step is selected: {}", run.describe());
    }
    if cells > want.len() {
        ctx.label("more builtin cells than steps");
    }
    for (k, w) in want.iter().enumerate() {
        for (col, name) in NAMES.iter().enumerate() {
            ensure!(got[k][col] == w[col], name, "step {k} {:?}: {} is {} instead of {}; {}", run.steps[k].0, name, short(&got[k][col]), short(&w[col]), run.describe());
        }
    }
    if let Some(range) = &run.rc {
        for (k, r) in got.iter().enumerate() {
            ensure!(r.len() == 43, "width", "{} columns: {}", r.len(), run.describe());
            let a = range.start + k as u64;
            if a < range.end {
                let unused = !run.mem.contains_key(&a);
                ensure!(unused || r[42] == run.mem[&a], "builtin-value", "row {k}: {} instead of memory cell {a}: {}", short(&r[42]), run.describe());
            }
            let mut v = FE::zero();
            for c in (34..42).rev() {
                ensure!(to_u64(&r[c]).is_some_and(|x| x < 65536), "builtin-limb", "row {k} column {c} = {}: {}", short(&r[c]), run.describe());
                v = v * FE::from(65536u64) + &r[c];
            }
            ensure!(v == r[42], "builtin-limb", "row {k}: the limbs of {} make {}: {}", short(&r[42]), short(&v), run.describe());
        }
        ctx.label("builtin columns");
    } else {
        ensure!(got.iter().all(|r| r.len() == 34), "width", "{}", run.describe());
    }
    ctx.label(format!("log2 steps {}", want.len().ilog2()));
    if want.len() >= 3 {
        ctx.nontrivial(run.describe().as_bytes());
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C17", "a case counts when the execution has at least three steps");
    let n = c.n(60_000, 1_000_000);
    c.run("generated executions", n, |src, ctx| {
        let run = cairo::generate(src, &Cfg::default());
        faithful(src, ctx, &run)
    });
    let n = c.n(40_000, 600_000);
    c.run("scattered steps", n, |src, ctx| {
        let mut run = cairo::scattered(src);
        if src.chance(1, 3) {
            // a builtin segment anywhere in the address space
            let len = src.range(1, 20);
            let base = match src.upto(2) {
                0 => (1u64 << src.range(15, 63)) - src.upto(len),
                _ => src.u64() >> src.upto(48),
            };
            let base = base.clamp(1, u64::MAX - len);
            if (base..base + len).all(|a| !run.mem.contains_key(&a)) {
                for a in base..base + len {
                    if !src.chance(1, 10) {
                        run.mem.insert(a, cairo::rc_value(src));
                    }
                }
                run.rc = Some(base..base + len);
                ctx.label("distant builtin segment");
            }
        }
        faithful(src, ctx, &run)
    });
    let n = c.n(6000, 60_000);
    c.run("few steps and many builtin cells", n, |src, ctx| {
        let cfg = Cfg { max_steps: 6, max_rc: 40, ..Cfg::default() };
        let run = cairo::generate(src, &cfg);
        faithful(src, ctx, &run)
    });
    let n = c.n(1500, 20_000);
    c.run("long and wide executions", n, |src, ctx| {
        let far = *src.pick(&[300u64, 5000, 30_000]);
        let cfg = Cfg { far, max_steps: 1500, max_program: 900, max_output: 40, max_rc: 60, max_room: 60_000, free_room: 70_000, ..Cfg::default() };
        let run = cairo::generate(src, &cfg);
        faithful(src, ctx, &run)
    });
    let n = c.n(8, 60);
    c.run("tens of thousands of steps", n, |src, ctx| {
        let steps = src.usize(4000, 80_000);
        let run = cairo::counting(src, steps);
        faithful(src, ctx, &run)
    });
    c.finish()
}
