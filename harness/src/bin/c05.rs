//! C05: the verifier enforces its own proof options.
use lambdaworks_crypto::fiat_shamir::recorder::{self, Event};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use vh::adv::Cheat;
use vh::genair::Cfg;
use vh::mutate::{self, Proof};
use vh::sys::{self, System};
use vh::*;

fn ok(s: &dyn System, o: &ProofOptions, ctx: &mut Ctx) -> Option<Proof> {
    match s.prove(o) {
        Ok(Some(p)) if s.verify(&p, o) == Ok(true) => Some(p),
        _ => {
            ctx.label("no accepted proof to start from");
            None
        }
    }
}

/// A crash is not an acceptance (totality is C08).
fn accepted(s: &dyn System, p: &Proof, o: &ProofOptions) -> bool {
    s.verify(p, o) == Ok(true)
}

/// The proof-of-work bits which a proof carries: the challenge just before the nonce is absorbed.
fn work(s: &dyn System, p: &Proof, o: &ProofOptions) -> Option<u32> {
    recorder::start();
    let _ = s.verify(p, o);
    let ev = recorder::take();
    let n = p.nonce.to_be_bytes().to_vec();
    let at = ev.iter().rposition(|e| *e == Event::Append(n.clone()))?;
    match ev.get(at.checked_sub(1)?)? {
        Event::Challenge(c) => Some(pow_bits(c, p.nonce)),
        _ => None,
    }
}

fn main() {
    let mut c = Check::new(
        "C05",
        "a case counts when a proof made under weaker or different options (or an independently built cheating proof) is put to the verifier; distinct by system, both options and manipulation",
    );
    let cfg = Cfg { min_log: 1, max_log: 5, ..Cfg::default() };
    let n = c.n(8000, 100_000);
    c.run("weaker or different options", n, |src, ctx| {
        let s = if src.chance(1, 40) { sys::cairo_or(src, &cfg) } else { sys::random(src, &cfg) };
        let want = sys::options_for(src, &*s, 0);
        let mut made = want.clone();
        let what = match src.upto(4) {
            0 | 1 => {
                if want.fri_number_of_queries < 2 {
                    return Ok(());
                }
                made.fri_number_of_queries = match src.upto(2) {
                    0 => want.fri_number_of_queries - 1,
                    1 => 1,
                    _ => src.usize(1, want.fri_number_of_queries - 1),
                };
                "fewer queries"
            }
            2 => {
                let all: Vec<u8> = [2u8, 4, 8, 16, 32].into_iter().filter(|b| *b != want.blowup_factor && *b as usize >= s.min_blowup()).collect();
                made.blowup_factor = *src.pick(&all);
                if made.blowup_factor < want.blowup_factor { "smaller blowup" } else { "larger blowup" }
            }
            3 => {
                made.coset_offset = match src.upto(2) {
                    0 => want.coset_offset.wrapping_add(src.range(1, 9)),
                    1 => want.coset_offset ^ (1 << src.upto(63)),
                    _ => want.coset_offset ^ (src.edgy_u64() << 32),
                }
                .max(2);
                let size = s.n() * made.blowup_factor as usize;
                if FE::from(made.coset_offset).pow(size) == FE::one() {
                    return Ok(());
                }
                "another offset"
            }
            _ => {
                if want.fri_number_of_queries < 2 {
                    return Ok(());
                }
                made.fri_number_of_queries = 1;
                made.grinding_factor = want.grinding_factor + 2;
                "fewer queries, more work"
            }
        };
        let Some(p) = ok(&*s, &made, ctx) else { return Ok(()) };
        if what == "another offset" && (made.coset_offset == want.coset_offset || !varies(s.table())) {
            ctx.label("same domain or constant trace");
            return Ok(());
        }
        let d = format!("made under {made:?}, verified under {want:?}: {}", s.describe());
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(what);
        ensure!(!accepted(&*s, &p, &want), "weaker-options", "accepted although {what}: {d}");
        Ok(())
    });
    // demands which narrow integers would mistake for smaller ones
    let n = c.n(700, 8000);
    c.run("many more queries demanded", n, |src, ctx| {
        let s = if src.chance(1, 8) { sys::large(src, 8) } else { sys::random(src, &cfg) };
        let made = ProofOptions { fri_number_of_queries: src.usize(1, 50), ..sys::options_for(src, &*s, 0) };
        let Some(p) = ok(&*s, &made, ctx) else { return Ok(()) };
        let have = made.fri_number_of_queries;
        for k in [128usize, 256, 512, 1000, 1 << 16, 1 << 32] {
            let missing = if src.bool() { k } else { k - have.min(k - 1) + src.usize(0, 4) };
            let want = ProofOptions { fri_number_of_queries: have + missing, ..made.clone() };
            let d = format!("{have} queries verified under {want:?}: {}", s.describe());
            ctx.sample(d.clone());
            ctx.nontrivial(d.as_bytes());
            ctx.evals(1);
            ensure!(!accepted(&*s, &p, &want), "weaker-options", "accepted with {d}");
            // and with the missing ones made up
            if missing > 1000 || s.n() > 64 || !varies(s.table()) {
                continue;
            }
            let mut q = mutate::clone_proof(&p);
            for i in 0..missing {
                q.query_list.push(mutate::clone_query(&p.query_list[i % have]));
                q.deep_poly_openings.push(mutate::clone_opening(&p.deep_poly_openings[i % have]));
            }
            ctx.evals(1);
            ctx.label("padded");
            ensure!(!accepted(&*s, &q, &want), "padded-queries", "accepted with repeated {d}");
        }
        Ok(())
    });
    // missing queries replaced by something
    let n = c.n(4000, 50_000);
    c.run("padded queries", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let mut want = sys::options_for(src, &*s, 0);
        let log = (s.n() * want.blowup_factor as usize).trailing_zeros() as usize;
        let missing = 40usize.div_ceil(log);
        let have = if src.chance(1, 10) { src.usize(30, 110) } else { src.usize(1, 6) };
        want.fri_number_of_queries = have + missing;
        let made = ProofOptions { fri_number_of_queries: have, ..want.clone() };
        if !varies(s.table()) {
            return Ok(());
        }
        let Some(mut p) = ok(&*s, &made, ctx) else { return Ok(()) };
        let what = match src.upto(3) {
            0 => "repeated queries and openings",
            1 => "repeated queries only",
            2 => "repeated openings only",
            _ => "one query repeated",
        };
        for i in 0..missing {
            let k = if what == "one query repeated" { 0 } else { i % have };
            if what != "repeated openings only" {
                let q = mutate::clone_query(&p.query_list[k]);
                p.query_list.push(q);
            }
            if what != "repeated queries only" {
                let o = mutate::clone_opening(&p.deep_poly_openings[k]);
                p.deep_poly_openings.push(o);
            }
        }
        let d = format!("{what}: {have} real queries of {}, {}", want.fri_number_of_queries, s.describe());
        ctx.nontrivial(d.as_bytes());
        ctx.label(what);
        ensure!(!accepted(&*s, &p, &want), "padded-queries", "accepted: {d} under {want:?}");
        Ok(())
    });
    // proof-of-work, against an independent measure of the work a proof carries
    let n = c.n(4000, 50_000);
    c.run("proof of work", n, |src, ctx| {
        let s = if src.chance(1, 40) { sys::cairo_or(src, &cfg) } else { sys::random(src, &cfg) };
        let mut made = sys::options_for(src, &*s, 0);
        made.grinding_factor = src.upto(6) as u8;
        let Some(p) = ok(&*s, &made, ctx) else { return Ok(()) };
        let Some(have) = work(&*s, &p, &made) else {
            ctx.label("work not measurable");
            return Ok(());
        };
        ensure!(have >= made.grinding_factor as u32, "too-little-work", "accepted with {have} bits of work under {made:?}: {}", s.describe());
        for extra in 1..=4 {
            let want = ProofOptions { grinding_factor: (have + extra) as u8, ..made.clone() };
            ctx.evals(1);
            let d = format!("proof with {have} bits of work verified under {want:?}: {}", s.describe());
            ctx.nontrivial(d.as_bytes());
            ctx.label(format!("{extra} bits missing"));
            ensure!(!accepted(&*s, &p, &want), "too-little-work", "accepted: {d}");
        }
        // every larger demand as well
        for k in have as u64 + 5..=255 {
            if k % 8 == 0 || src.chance(1, 6) {
                let want = ProofOptions { grinding_factor: k as u8, ..made.clone() };
                ensure!(!accepted(&*s, &p, &want), "too-little-work", "accepted with {have} bits of work under {want:?}");
            }
        }
        Ok(())
    });
    // as much work as the security presets demand, and a demand just above it
    let n = c.n(24, 200);
    c.run("much proof of work", n, |src, ctx| {
        let s = sys::random(src, &Cfg { min_log: 1, max_log: 3, ..Cfg::default() });
        let mut made = sys::options_for(src, &*s, 0);
        made.grinding_factor = src.range(14, 20) as u8;
        let Some(p) = ok(&*s, &made, ctx) else { return Ok(()) };
        let Some(have) = work(&*s, &p, &made) else {
            ctx.label("work not measurable");
            return Ok(());
        };
        ensure!(have >= made.grinding_factor as u32, "too-little-work", "accepted with {have} bits of work under {made:?}: {}", s.describe());
        for k in have + 1..=255 {
            let want = ProofOptions { grinding_factor: k as u8, ..made.clone() };
            ctx.evals(1);
            let d = format!("proof with {have} bits of work verified under {want:?}: {}", s.describe());
            ctx.nontrivial(d.as_bytes());
            ensure!(!accepted(&*s, &p, &want), "too-little-work", "accepted: {d}");
        }
        Ok(())
    });
    // cheating provers which follow the protocol otherwise
    let n = c.n(4000, 50_000);
    c.run("cheating provers", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let mut opts = sys::options_for(src, &*s, 30);
        opts.grinding_factor = opts.grinding_factor.max(1);
        let layers = s.n().trailing_zeros() as usize;
        let cheat = match src.upto(5) {
            0 => Cheat::WeakNonce,
            1 => Cheat::FewerQueries(0),
            2 => Cheat::FewerQueries(src.usize(0, 3.min(opts.fri_number_of_queries - 1))),
            3 => Cheat::NoLayers,
            4 if layers > 1 => Cheat::FewerLayers(src.usize(1, layers - 1)),
            _ => Cheat::NoOpenings,
        };
        let Some(o) = s.adversary(src, &opts, &cheat) else {
            ctx.label("does not apply");
            return Ok(());
        };
        let d = format!("{cheat:?} under {opts:?}: {}", s.describe());
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(cheat_class(&cheat));
        ensure!(!accepted(&*s, &o.proof, &opts), "cheater-accepted", "accepted: {d}");
        Ok(())
    });
    c.assume("a proof under another coset offset is only held against a verifier when some trace column is not constant (a constant column has the same extension on every coset)");
    c.finish()
}

fn cheat_class(c: &Cheat) -> String {
    format!("{c:?}").split('(').next().unwrap().to_string()
}
