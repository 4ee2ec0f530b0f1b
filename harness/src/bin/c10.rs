//! C10: serialisation round-trips without loss.
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::starks::{frame::Frame, fri::fri_decommit::FriDecommitment, proof::stark::{DeepPolynomialOpenings, StarkProof}};
use vh::genair::Cfg;
use vh::{cairo, mutate, sys, *};

fn trip<T: Serializable + Deserializable>(what: &str, v: &T) -> Result<(Vec<u8>, T), Fail> {
    let b = match guard(|| v.serialize()) {
        Ok(b) => b,
        Err(m) => return fail("encode-panic", format!("encoding a {what} panicked: {m}")),
    };
    match guard(|| T::deserialize(&b)) {
        Ok(Ok(d)) => Ok((b, d)),
        Ok(Err(e)) => fail("not-decodable", format!("the encoding of a {what} does not decode: {e:?}; {} bytes {}", b.len(), hex(&b[..b.len().min(400)]))),
        Err(m) => fail("decode-panic", format!("decoding a {what} panicked: {m}")),
    }
}

fn proof_trip(p: &mutate::Proof, ctx: &mut Ctx) -> Result<mutate::Proof, Fail> {
    let (b, d) = trip("proof", p)?;
    if let Some(x) = mutate::difference(p, &d) {
        return fail("changed", format!("{x} of the proof changed: shape {:?}", mutate::shape(p)));
    }
    ensure!(d.serialize() == b, "re-encoding", "another encoding: shape {:?}", mutate::shape(p));
    ensure!(p.serialize() == b, "re-encoding", "encoding twice gives different bytes");
    ctx.nontrivial(&b);
    Ok(d)
}

fn main() {
    let mut c = Check::new("C10", "every encoded object counts; distinct by encoding");
    let n = c.n(60_000, 1_000_000);
    c.run("proofs of any shape", n, |src, ctx| {
        let p = mutate::arb_proof(src);
        ctx.sample(format!("shape {:?}", mutate::shape(&p)));
        proof_trip(&p, ctx)?;
        Ok(())
    });
    let n = c.n(120_000, 2_000_000);
    c.run("parts of any shape", n, |src, ctx| {
        match src.upto(3) {
            0 => {
                let v = mutate::arb_frame(src);
                let (b, d) = trip("frame", &v)?;
                ensure!(d == v, "changed", "frame {v:?} becomes {d:?}");
                ensure!(d.serialize() == b, "re-encoding", "frame");
                ctx.label("frame");
                ctx.nontrivial(&b);
            }
            1 => {
                let v = mutate::arb_query(src);
                let (b, d) = trip::<FriDecommitment<F>>("FRI decommitment", &v)?;
                ensure!(mutate::same_query(&v, &d), "changed", "{v:?} becomes {d:?}");
                ensure!(d.serialize() == b, "re-encoding", "FRI decommitment");
                ctx.label("FRI decommitment");
                ctx.nontrivial(&b);
            }
            2 => {
                let v = mutate::arb_opening(src);
                let (b, d) = trip::<DeepPolynomialOpenings<F>>("openings", &v)?;
                ensure!(mutate::same_opening(&v, &d), "changed", "{v:?} becomes {d:?}");
                ensure!(d.serialize() == b, "re-encoding", "openings");
                ctx.label("openings");
                ctx.nontrivial(&b);
            }
            _ => {
                let v = match src.upto(2) {
                    0 => cairo::generate(src, &cairo::Cfg { max_steps: 8, max_program: 20, ..Default::default() }).public(),
                    _ => mutate::arb_public(src),
                };
                let (b, d) = trip::<PublicInputs>("public inputs", &v)?;
                ensure!(mutate::same_public(&v, &d), "changed", "{v:?} becomes {d:?}");
                // the order of the entries is not fixed, their content is
                let again = trip("public inputs", &d)?;
                ensure!(again.0.len() == b.len() && mutate::same_public(&v, &again.1), "re-encoding", "{v:?}");
                ctx.label("public inputs");
                ctx.nontrivial(&b);
            }
        }
        Ok(())
    });
    let n = c.n(3000, 40_000);
    c.run("long lists", n, |src, ctx| {
        if src.chance(1, 8) {
            let mut v = mutate::arb_public(src);
            let n = mutate::lengthen_public(src, &mut v);
            ctx.sample(format!("{n} public memory cells"));
            let (b, d) = trip::<PublicInputs>("public inputs", &v)?;
            ensure!(mutate::same_public(&v, &d), "changed", "public inputs with {n} cells");
            ctx.label("public memory");
            ctx.nontrivial(&b);
            return Ok(());
        }
        let mut p = mutate::arb_proof(src);
        let (what, n) = mutate::lengthen(src, &mut p);
        ctx.sample(format!("{what}: {n}"));
        ctx.label(what);
        proof_trip(&p, ctx)?;
        match src.upto(2) {
            0 => {
                let (_, d) = trip("frame", &p.trace_ood_frame_evaluations)?;
                ensure!(d == p.trace_ood_frame_evaluations, "changed", "frame");
            }
            1 => {
                for q in p.query_list.iter().take(4) {
                    let (_, d) = trip::<FriDecommitment<F>>("FRI decommitment", q)?;
                    ensure!(mutate::same_query(q, &d), "changed", "FRI decommitment");
                }
            }
            _ => {
                for q in p.deep_poly_openings.iter().take(4) {
                    let (_, d) = trip::<DeepPolynomialOpenings<F>>("openings", q)?;
                    ensure!(mutate::same_opening(q, &d), "changed", "openings");
                }
            }
        }
        Ok(())
    });
    let n = c.n(3000, 40_000);
    c.run("real proofs keep their verdict", n, |src, ctx| {
        let s = if src.chance(1, 20) { sys::large(src, 9) } else { sys::random(src, &Cfg { min_log: 1, max_log: 6, ..Cfg::default() }) };
        let o = sys::options_for(src, &*s, 0);
        let Ok(Some(mut p)) = s.prove(&o) else { return Ok(()) };
        let bad = src.chance(1, 3);
        if bad {
            let sites = mutate::sites(&p);
            let k = *src.pick(&sites);
            mutate::alter(src, &mut p, &k);
        }
        let before = s.verify(&p, &o);
        let d = proof_trip(&p, ctx)?;
        let after = s.verify(&d, &o);
        ensure!(before == after, "verdict", "{before:?} becomes {after:?}: {}", s.describe());
        ctx.label(format!("{before:?}"));
        Ok(())
    });
    let n = c.n(300, 4000);
    c.run("Cairo proofs", n, |src, ctx| {
        use lambdaworks_stark::cairo::{air::*, execution_trace::build_main_trace};
        let run = cairo::generate(src, &cairo::Cfg { max_steps: 20, ..Default::default() });
        let mut pubs = run.public();
        let Ok(t) = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) else { return Ok(()) };
        let opts = sys::options(src, t.n_rows(), 2, 0);
        let Ok(Ok(p)) = guard(|| generate_cairo_proof(&t, &pubs, &opts)) else { return Ok(()) };
        let before = guard(|| verify_cairo_proof(&p, &pubs, &opts));
        let d = proof_trip(&p, ctx)?;
        let (_, q) = trip::<PublicInputs>("public inputs", &pubs)?;
        ensure!(mutate::same_public(&pubs, &q), "changed", "{pubs:?} becomes {q:?}");
        let after = guard(|| verify_cairo_proof(&d, &q, &opts));
        ensure!(before == after, "verdict", "{before:?} becomes {after:?}: {}", run.describe());
        ctx.label(format!("{before:?}"));
        Ok(())
    });
    // an encoding made by an earlier version
    if let Ok(b) = std::fs::read("/repo/benches/proofs/fibonacci_70000.proof") {
        c.run_indexed("stored proof", 1, |_, ctx| {
            let k = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
            let p = match StarkProof::<F>::deserialize(&b[8..8 + k]) {
                Ok(p) => p,
                Err(e) => return fail("not-decodable", format!("the stored proof does not decode: {e:?}")),
            };
            ensure!(p.serialize() == b[8..8 + k], "re-encoding", "the stored proof gets another encoding");
            let q = match PublicInputs::deserialize(&b[8 + k..]) {
                Ok(q) => q,
                Err(e) => return fail("not-decodable", format!("the stored public inputs do not decode: {e:?}")),
            };
            ensure!(q.serialize().len() == b.len() - 8 - k, "re-encoding", "the stored public inputs get another encoding");
            ctx.nontrivial(&b[..64]);
            Ok(())
        });
    }
    let _ = Frame::<F>::new(vec![], 1);
    c.finish()
}
