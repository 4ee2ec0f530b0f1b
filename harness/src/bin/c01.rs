//! C01: honest proofs always verify.
use lambdaworks_math::traits::{Deserializable, Serializable};
use vh::genair::{self, Cfg};
use vh::sys::{self, Proof, Sys, System};
use vh::*;

fn honest(s: &dyn System, opts: &lambdaworks_stark::starks::proof::options::ProofOptions, ctx: &mut Ctx) -> Res {
    let d = format!("{} under {:?}", s.describe(), opts);
    ctx.sample(d.clone());
    let c = s.context(opts);
    ctx.label(s.kind());
    ctx.label(format!("offsets {:?}", c.transition_offsets));
    ctx.label(format!("n {} blowup {}", s.n(), opts.blowup_factor));
    ctx.label(format!("aux columns {}", s.aux_width(opts)));
    ctx.label(format!("exempt {:?}", {
        let mut e = c.transition_exemptions.clone();
        e.sort();
        e.dedup();
        e.truncate(4);
        e
    }));
    if s.main_width() > 1 || c.transition_offsets.len() > 1 {
        ctx.nontrivial(d.as_bytes());
    }
    let p = match s.prove(opts) {
        Err(m) => return fail("prove-crash", format!("prover crashed ({m}) on {d}")),
        Ok(None) => return fail("prove-error", format!("prover refused {d}")),
        Ok(Some(p)) => p,
    };
    match s.verify(&p, opts) {
        Err(m) => return fail("verify-crash", format!("verifier crashed ({m}) on the honest proof of {d}")),
        Ok(v) => ensure!(v, "rejected", "honest proof rejected: {d}"),
    }
    // what a verifier really receives
    let bytes = p.serialize();
    let q = match guard(|| Proof::deserialize(&bytes)) {
        Ok(Ok(q)) => q,
        other => return fail("decode", format!("honest proof does not decode ({:?}): {d}", other.err())),
    };
    ensure!(s.verify(&q, opts) == Ok(true), "rejected-decoded", "honest proof rejected after a round trip: {d}");
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C01",
        "a generated (system, satisfying trace, options) case counts as non-trivial when it has more than one column or more than one frame offset; distinct by full description",
    );
    let n = c.n(9000, 120_000);
    c.run("generated systems", n, |src, ctx| {
        let s = sys::generated(src, &Cfg { min_log: 0, max_log: 6, ..Cfg::default() });
        let v = genair::violations(&s.pubs, &rows(&s.table));
        assert!(v.is_empty(), "generator bug {v:?}");
        let opts = sys::options_for(src, &s, 0);
        honest(&s, &opts, ctx)
    });
    let n = c.n(2000, 30_000);
    c.run("example systems", n, |src, ctx| {
        let s = sys::example(src, 6);
        let opts = sys::options_for(src, &*s, 0);
        honest(&*s, &opts, ctx)
    });
    let n = c.n(300, 3000);
    c.run("wide systems", n, |src, ctx| {
        let s = sys::generated(src, &Cfg { min_log: 2, max_log: 4, max_main: 24, ..Cfg::default() });
        let opts = sys::options_for(src, &s, 0);
        honest(&s, &opts, ctx)
    });
    let n = c.n(100, 800);
    let max_log = c.n(10, 13) as usize;
    c.run("long traces", n, |src, ctx| {
        let s: Box<dyn System> = if src.bool() {
            sys::example(src, max_log)
        } else {
            Box::new(sys::generated(src, &Cfg { min_log: 7, max_log, max_main: 3, ..Cfg::default() }))
        };
        let opts = sys::options_for(src, &*s, 0);
        honest(&*s, &opts, ctx)
    });
    let n = c.n(300, 3000);
    let big_log = c.n(9, 11) as usize;
    c.run("large in one way", n, |src, ctx| {
        let s = sys::large(src, big_log);
        let opts = sys::options_for(src, &*s, 0);
        honest(&*s, &opts, ctx)
    });
    // lengths at which narrow integers and small buffers give out
    let long: Vec<(u64, usize, u8, u64)> = vec![(0, 11, 2, 3), (1, 12, 2, 7), (2, 11, 8, 3), (0, 13, 16, 3), (3, 11, 4, 1 << 40), (0, 16, 2, 3), (2, 17, 2, 5)];
    c.each("very long traces", &long, |(which, log, blowup, offset), ctx| {
        let mut src = Src::random(*log as u64);
        let s = sys::example_n(&mut src, *which, *log);
        let opts = lambdaworks_stark::starks::proof::options::ProofOptions {
            blowup_factor: *blowup,
            fri_number_of_queries: 12,
            coset_offset: *offset,
            grinding_factor: 0,
        };
        honest(&*s, &opts, ctx)
    });
    let n = c.n(6, 60);
    c.run("very long generated traces", n, |src, ctx| {
        let s = sys::generated(src, &Cfg { min_log: 11, max_log: 12, max_main: 2, ..Cfg::default() });
        let mut opts = sys::options_for(src, &s, 0);
        opts.blowup_factor = opts.blowup_factor.min(4).max(s.min_blowup as u8);
        honest(&s, &opts, ctx)
    });
    let n = c.n(16, 160);
    c.run("hundreds of columns", n, |src, ctx| {
        let (log, width) = (src.usize(1, 3), src.usize(400, 1500));
        let inst = genair::parallel(src, log, width);
        let s: Sys<genair::GenAir> = Sys { kind: "generated", desc: inst.spec.describe(), pubs: inst.pubs(), table: inst.table(), min_blowup: inst.spec.min_blowup(), alter: None };
        let mut opts = sys::options_for(src, &s, 0);
        opts.blowup_factor = opts.blowup_factor.min(8).max(s.min_blowup as u8);
        ctx.label(format!("{} hundred columns", width / 500 * 5));
        honest(&s, &opts, ctx)
    });
    let n = c.n(8, 80);
    c.run("frames of distant rows", n, |src, ctx| {
        let log = 9;
        let gap = src.usize(240, 300);
        let width = src.usize(1, 2);
        let inst = genair::ahead(src, log, width, gap);
        let s: Sys<genair::GenAir> = Sys { kind: "generated", desc: inst.spec.describe(), pubs: inst.pubs(), table: inst.table(), min_blowup: inst.spec.min_blowup(), alter: None };
        let mut opts = sys::options_for(src, &s, 0);
        opts.blowup_factor = opts.blowup_factor.min(4).max(s.min_blowup as u8);
        ctx.label(if gap > 255 { "offset of more than 255" } else { "offset below 256" });
        honest(&s, &opts, ctx)
    });
    let n = c.n(4, 24);
    c.run("more than 2^16 rows", n, |src, ctx| {
        let s = sys::generated(src, &Cfg { min_log: 17, max_log: 17, max_main: 1, ..Cfg::default() });
        let mut opts = sys::options_for(src, &s, 0);
        opts.blowup_factor = s.min_blowup as u8;
        ctx.label(format!("blowup {}", s.min_blowup));
        honest(&s, &opts, ctx)
    });
    // every combination of trace length, blowup, few queries, grinding and coset offset
    let mut grid = Vec::new();
    for which in 0..5u64 {
        grid.push((which, 2, 2, 66_000, 0, 3));
        for log in 2..=5u64 {
            for blowup in [2u8, 4, 8, 16, 32, 64, 128] {
                for (q, g, o) in [(1usize, 0u8, 3u64), (2, 9, 5), (33, 3, 0x8000_0000_0000_0001), (200, 1, 2), (300, 0, 7)] {
                    if (1usize << log) * blowup as usize * q < 200_000 {
                        grid.push((which, log, blowup, q, g, o));
                    }
                }
            }
        }
    }
    c.each("option grid", &grid, |(which, log, blowup, q, g, o), ctx| {
        let mut src = Src::random(*which * 131 + *log);
        let s = sys::example_n(&mut src, *which, *log as usize);
        let opts = lambdaworks_stark::starks::proof::options::ProofOptions {
            blowup_factor: *blowup,
            fri_number_of_queries: *q,
            coset_offset: *o,
            grinding_factor: *g,
        };
        honest(&*s, &opts, ctx)
    });
    c.assume("composition degree bound 1 or 2 times the trace length, which is what the prover's two composition halves can carry");
    c.finish()
}
