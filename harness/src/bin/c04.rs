//! C04: changing any part of a proof makes it rejected.
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use vh::genair::Cfg;
use vh::mutate::{self, Proof, Site};
use vh::sys::{self, System};
use vh::*;

/// Options under which a different draw of query positions never coincides with the
/// opened ones by chance.
fn opts_for(src: &mut Src, s: &dyn System) -> ProofOptions {
    let mut o = sys::options_for(src, s, 0);
    o.fri_number_of_queries = src.usize(1, 12);
    o
}

/// As many queries as the security presets ask for, now and then.
fn opts_many(src: &mut Src, s: &dyn System) -> ProofOptions {
    let mut o = opts_for(src, s);
    if s.n() <= 16 && src.chance(1, 10) {
        o.fri_number_of_queries = if src.chance(1, 4) { src.usize(256, 300) } else { src.usize(30, 145) };
    }
    o
}

/// Another nonce draws other positions. Openings at those positions are the same ones when
/// there are few positions, or when every committed function is constant.
fn redrawn_positions_may_coincide(p: &Proof, o: &ProofOptions) -> bool {
    let bits = (p.trace_length * o.blowup_factor as usize).trailing_zeros() as usize * o.fri_number_of_queries;
    let opened = |i: usize| (&p.query_list[i].layers_evaluations[0], &p.deep_poly_openings[i].lde_trace_evaluations);
    bits < 40 || (1..p.query_list.len()).all(|i| opened(i) == opened(0))
}

fn reject(s: &dyn System, opts: &ProofOptions, p: &Proof, q: &Proof, what: &str, ctx: &mut Ctx) -> Res {
    if mutate::same(p, q) {
        return Ok(());
    }
    ctx.evals(1);
    let d = format!("{what} in the proof of {} under {:?}", s.describe(), opts);
    ctx.nontrivial(d.as_bytes());
    match s.verify(q, opts) {
        Ok(false) => Ok(()),
        Ok(true) => fail("accepted", format!("accepted with {d}")),
        // totality is a property of its own; here a crash is no acceptance
        Err(_) => {
            ctx.label("verifier panicked");
            Ok(())
        }
    }
}

fn honest(s: &dyn System, opts: &ProofOptions, ctx: &mut Ctx) -> Option<Proof> {
    match s.prove(opts) {
        Ok(Some(p)) if s.verify(&p, opts) == Ok(true) => Some(p),
        _ => {
            ctx.label("no accepted proof to start from");
            None
        }
    }
}

fn main() {
    let mut c = Check::new(
        "C04",
        "a case counts for every altered proof that differs from the accepted one (compared by content and shape); distinct by system, options and alteration",
    );
    let cfg = Cfg { min_log: 0, max_log: 5, ..Cfg::default() };
    // every single value of a proof, once
    let n = c.n(400, 6000);
    c.run("every value", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = opts_for(src, &*s);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        ctx.sample(format!("{} under {:?}", s.describe(), opts));
        for site in mutate::sites(&p) {
            if site == Site::Nonce && redrawn_positions_may_coincide(&p, &opts) {
                continue;
            }
            let mut q = mutate::clone_proof(&p);
            mutate::alter(src, &mut q, &site);
            ctx.label(site.class());
            reject(&*s, &opts, &p, &q, &format!("{site:?} altered"), ctx)?;
        }
        Ok(())
    });
    // more layers and deeper trees than the small systems have
    let n = c.n(150, 2000);
    let max_log = c.n(9, 11) as usize;
    c.run("values of large proofs", n, |src, ctx| {
        let s: Box<dyn System> =
            if src.chance(2, 3) { sys::large(src, max_log) } else { sys::random(src, &Cfg { min_log: 6, max_log, max_main: 3, ..Cfg::default() }) };
        let mut opts = sys::options_for(src, &*s, 0);
        opts.fri_number_of_queries = src.usize(4, 8);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        ctx.sample(format!("{} under {:?}", s.describe(), opts));
        let all = mutate::sites(&p);
        for _ in 0..150 {
            let site = *src.pick(&all);
            if site == Site::Nonce && redrawn_positions_may_coincide(&p, &opts) {
                continue;
            }
            let mut q = mutate::clone_proof(&p);
            mutate::alter(src, &mut q, &site);
            reject(&*s, &opts, &p, &q, &format!("{site:?} altered"), ctx)?;
        }
        Ok(())
    });
    // the last of hundreds of queries counts like the first
    let n = c.n(60, 800);
    c.run("values of hundreds of queries", n, |src, ctx| {
        let s = sys::random(src, &Cfg { min_log: 1, max_log: 4, max_main: 3, ..Cfg::default() });
        let mut opts = sys::options_for(src, &*s, 0);
        opts.fri_number_of_queries = src.usize(100, 700);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        ctx.sample(format!("{} under {:?}", s.describe(), opts));
        let all = mutate::sites(&p);
        for _ in 0..30 {
            let site = *src.pick(&all);
            if site == Site::Nonce {
                continue;
            }
            let mut q = mutate::clone_proof(&p);
            mutate::alter(src, &mut q, &site);
            ctx.label(site.class());
            reject(&*s, &opts, &p, &q, &format!("{site:?} altered"), ctx)?;
        }
        Ok(())
    });
    // many columns, and the entry point of the Cairo machine
    let n = c.n(120, 1500);
    c.run("Cairo proofs", n, |src, ctx| {
        let Some(s) = sys::cairo(src) else { return Ok(()) };
        let mut opts = sys::options_for(src, &s, 0);
        opts.fri_number_of_queries = src.usize(4, 8);
        let Some(p) = honest(&s, &opts, ctx) else { return Ok(()) };
        ctx.sample(format!("{} under {:?}", s.describe(), opts));
        let all = mutate::sites(&p);
        for i in 0..60 {
            let mut q = mutate::clone_proof(&p);
            let what = if i % 4 == 0 {
                mutate::restructure(src, &mut q, &p)
            } else {
                let site = *src.pick(&all);
                ctx.label(site.class());
                mutate::alter(src, &mut q, &site);
                format!("{site:?} altered")
            };
            reject(&s, &opts, &p, &q, &what, ctx)?;
        }
        Ok(())
    });
    let n = c.n(5000, 60_000);
    c.run("structure", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = opts_many(src, &*s);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        // another valid proof: same statement under other options, or the same options
        // and another statement
        let mut o2 = opts.clone();
        if src.bool() {
            o2.coset_offset = opts.coset_offset + 2;
        } else {
            o2.fri_number_of_queries += 1;
        }
        let Some(other) = honest(&*s, &o2, ctx) else { return Ok(()) };
        for _ in 0..8 {
            let mut q = mutate::clone_proof(&p);
            let mut what = mutate::restructure(src, &mut q, &other);
            if src.chance(1, 6) {
                what = format!("{what}, {}", mutate::restructure(src, &mut q, &other));
            }
            ctx.label(what.split(',').next().unwrap().to_string());
            reject(&*s, &opts, &p, &q, &what, ctx)?;
        }
        Ok(())
    });
    let n = c.n(2500, 30_000);
    c.run("values from elsewhere", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = opts_many(src, &*s);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        let mut o2 = opts.clone();
        o2.coset_offset = opts.coset_offset + 2;
        let Some(other) = honest(&*s, &o2, ctx) else { return Ok(()) };
        let all = mutate::sites(&p);
        for _ in 0..10 {
            let to = *src.pick(&all);
            // the same value of another proof, or a different value of the same class
            let (donor, from) = if src.bool() {
                (&other, to)
            } else {
                let class: Vec<Site> = all.iter().copied().filter(|s| s.class() == to.class()).collect();
                (&p, *src.pick(&class))
            };
            if to == Site::Nonce && redrawn_positions_may_coincide(&p, &opts) {
                continue;
            }
            let mut q = mutate::clone_proof(&p);
            mutate::copy(&mut q, &to, donor, &from);
            reject(&*s, &opts, &p, &q, &format!("{to:?} taken from {from:?}"), ctx)?;
        }
        Ok(())
    });
    let n = c.n(2500, 30_000);
    c.run("several values", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = opts_many(src, &*s);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        let all = mutate::sites(&p);
        for _ in 0..6 {
            let mut q = mutate::clone_proof(&p);
            let mut what = Vec::new();
            if src.bool() {
                // consistently in two related places
                let i = src.usize(0, opts.fri_number_of_queries - 1);
                let k = src.usize(0, p.fri_layers_merkle_roots.len() - 1);
                let pairs = [
                    (Site::LayerEval(i, k), Site::LayerEvalSym(i, k)),
                    (Site::LayerEval(i, 0), Site::OpenEven(i)),
                    (Site::LayerEval(i, 0), Site::OpenTrace(i, 0)),
                    (Site::OpenEven(i), Site::OpenOdd(i)),
                    (Site::OodEven, Site::OodOdd),
                    (Site::LayerEval(i, p.fri_layers_merkle_roots.len() - 1), Site::LastValue),
                    (Site::OodCell(0, 0), Site::OodEven),
                    (Site::FriRoot(k), Site::LayerEval(i, k)),
                    (Site::Path(i, k, 0), Site::PathSym(i, k, 0)),
                ];
                let (a, b) = *src.pick(&pairs);
                mutate::alter(src, &mut q, &a);
                mutate::alter(src, &mut q, &b);
                what.push(a);
                what.push(b);
            } else {
                for _ in 0..src.usize(2, 5) {
                    let a = *src.pick(&all);
                    if a == Site::Nonce {
                        continue;
                    }
                    mutate::alter(src, &mut q, &a);
                    what.push(a);
                }
            }
            reject(&*s, &opts, &p, &q, &format!("{what:?} altered"), ctx)?;
        }
        Ok(())
    });
    // bytes on the wire: whatever still decodes to another proof is rejected
    let n = c.n(2500, 30_000);
    c.run("encoded bytes", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = opts_many(src, &*s);
        let Some(p) = honest(&*s, &opts, ctx) else { return Ok(()) };
        let bytes = p.serialize();
        for _ in 0..12 {
            let mut b = bytes.clone();
            let at = if src.bool() { src.usize(0, b.len() - 1) } else { src.usize(0, 400.min(b.len() - 1)) };
            b[at] ^= 1 << src.upto(7);
            let Ok(Ok(q)) = guard(|| Proof::deserialize(&b)) else {
                ctx.label("does not decode");
                continue;
            };
            if q.nonce != p.nonce && redrawn_positions_may_coincide(&p, &opts) {
                continue;
            }
            ctx.label("decodes");
            reject(&*s, &opts, &p, &q, &format!("byte {at} of {} altered", b.len()), ctx)?;
        }
        Ok(())
    });
    c.assume("the nonce is altered only when a redraw of all query positions coincides with probability below 2^-40");
    c.finish()
}
