//! C07: the low-degree test rejects cheating provers and passes honest ones.
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, recorder, transcript::Transcript};
use lambdaworks_math::{field::traits::IsFFTField, polynomial::Polynomial, traits::ByteConversion};
use lambdaworks_stark::starks::{
    config::FriMerkleTreeBackend,
    example::simple_fibonacci::{FibonacciAIR, FibonacciPublicInputs},
    fri::{fri_commit_phase, fri_query_phase},
    proof::options::ProofOptions,
    traits::AIR,
};
use vh::adv::Cheat;
use vh::genair::Cfg;
use vh::sys::{self, System};
use vh::*;

fn class(c: &Cheat) -> String {
    format!("{c:?}").split('(').next().unwrap().to_string()
}

/// Evaluate by Horner: independent of any FFT.
fn horner(c: &[FE], x: &FE) -> FE {
    c.iter().rev().fold(FE::zero(), |a, v| a * x + v)
}

fn coefficients(src: &mut Src, n: usize) -> Vec<FE> {
    match src.upto(5) {
        0 => vec![FE::zero(); n],
        1 => {
            let mut c = vec![FE::zero(); n];
            c[0] = fe(src);
            c
        }
        2 => {
            let mut c = vec![FE::zero(); n];
            c[src.usize(0, n - 1)] = fe_nonzero(src);
            c
        }
        3 => {
            let k = src.usize(1, n);
            (0..k).map(|_| fe(src)).collect()
        }
        _ => (0..n).map(|_| fe_uniform(src)).collect(),
    }
}

fn main() {
    let mut c = Check::new(
        "C07",
        "a case counts for each effective deviation of the independent prover and for each committed polynomial; distinct by deviation, system and options, or by coefficients",
    );
    let cfg = Cfg { min_log: 1, max_log: 6, ..Cfg::default() };
    let n = c.n(14_000, 200_000);
    c.run("cheating provers", n, |src, ctx| {
        let s = sys::random(src, &cfg);
        let opts = sys::options_for(src, &*s, 36);
        let layers = s.n().trailing_zeros() as usize;
        let j = src.usize(1, layers.max(1));
        let region = src.upto(7) as u8;
        let cheat = match src.upto(23) {
            0 => Cheat::ForgedCompositionAndClaims,
            1 => Cheat::ForgedTraceClaim,
            2 => Cheat::SubstituteLowDegree,
            3 => Cheat::SubstituteAndForgeCompositionOpening,
            4 | 5 => Cheat::SubstituteAndForgeTraceOpening(src.usize(0, 7)),
            6 | 7 => Cheat::SwitchLayer(j),
            8 | 9 => Cheat::SwitchLayerForgeSym(j),
            10 => Cheat::WrongLastValue,
            11 => Cheat::ExtraLayerEvaluation,
            12 => Cheat::NoLayers,
            13 => Cheat::FewerLayers(src.usize(1, layers.max(2))),
            14 => Cheat::ExtraLayer,
            15 => Cheat::CorruptedRegion(region),
            16 => Cheat::CorruptedOpeningRegion(region),
            17 => Cheat::WrongZeta(src.usize(0, layers.max(1) - 1)),
            18 => Cheat::HighDegree,
            20 => Cheat::OmitColumns(src.usize(0, s.main_width())),
            21 => Cheat::OmitRow(src.usize(0, 3)),
            22 => Cheat::OmitHalf(src.upto(1) as u8),
            19 => Cheat::CorruptedLayer(src.usize(0, layers.max(1) - 1), region),
            _ => {
                if src.bool() {
                    Cheat::OtherPositions
                } else {
                    Cheat::ShiftedQueries
                }
            }
        };
        let Some(o) = s.adversary(src, &opts, &cheat) else {
            ctx.label("does not apply");
            return Ok(());
        };
        if !o.effective {
            ctx.label("without effect");
            return Ok(());
        }
        let d = format!("{cheat:?} against {} under {:?}", s.describe(), opts);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(class(&cheat));
        ensure!(s.verify(&o.proof, &opts) != Ok(true), "cheater-accepted", "accepted: {d}");
        Ok(())
    });

    // as many columns as the Cairo machine has: claims about every one of them count
    let n = c.n(700, 10_000);
    c.run("cheating provers of wide systems", n, |src, ctx| {
        let s = sys::generated(src, &Cfg { min_log: 1, max_log: 3, wide: true, ..Cfg::default() });
        let opts = sys::options_for(src, &s, 36);
        let cheat = match src.upto(7) {
            0 => Cheat::SubstituteAndForgeTraceOpening(src.usize(0, 127)),
            1 => Cheat::HighDegree,
            2 => Cheat::ForgedCompositionAndClaims,
            3 => Cheat::ForgedTraceClaim,
            _ => Cheat::OmitColumns(src.usize(0, s.main_width())),
        };
        let Some(o) = s.adversary(src, &opts, &cheat) else { return Ok(()) };
        if !o.effective {
            ctx.label("without effect");
            return Ok(());
        }
        let d = format!("{cheat:?} against {} under {:?}", s.describe(), opts);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(format!("{} over {} columns", class(&cheat), s.main_width() / 30 * 30));
        ensure!(s.verify(&o.proof, &opts) != Ok(true), "cheater-accepted", "accepted: {d}");
        Ok(())
    });

    let n = c.n(500, 6000);
    c.run("cheating provers of the Cairo machine", n, |src, ctx| {
        let Some(s) = sys::cairo(src) else { return Ok(()) };
        let opts = sys::options_for(src, &s, 36);
        let layers = s.n().trailing_zeros() as usize;
        let j = src.usize(1, layers.max(1));
        let cheat = match src.upto(9) {
            0 => Cheat::SubstituteAndForgeTraceOpening(src.usize(0, 127)),
            1 => Cheat::HighDegree,
            2 => Cheat::ForgedCompositionAndClaims,
            3 => Cheat::ForgedTraceClaim,
            4 => Cheat::SwitchLayerForgeSym(j),
            5 => Cheat::ExtraLayer,
            6 => Cheat::CorruptedLayer(src.usize(0, layers.max(1) - 1), src.upto(7) as u8),
            7 => Cheat::OtherPositions,
            8 => Cheat::OmitHalf(src.upto(1) as u8),
            _ => Cheat::OmitColumns(src.usize(0, s.main_width())),
        };
        let Ok(Some(o)) = guard(|| s.adversary(src, &opts, &cheat)) else { return Ok(()) };
        if !o.effective {
            ctx.label("without effect");
            return Ok(());
        }
        let d = format!("{cheat:?} against {} under {:?}", s.describe(), opts);
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        ctx.label(format!("Cairo, {}", class(&cheat)));
        ensure!(s.verify(&o.proof, &opts) != Ok(true), "cheater-accepted", "accepted: {d}");
        Ok(())
    });

    let n = c.n(3000, 40_000);
    let phases = |src: &mut Src, ctx: &mut Ctx, log: usize, blowup: usize, every: bool| {
        let n = 1usize << log;
        let size = n * blowup;
        let layers = log.max(1);
        let coef = coefficients(src, n);
        let offset = FE::from(src.range(2, 1000));
        let p = Polynomial::new(&coef);
        let seed = src.arr32();
        let mut t = DefaultTranscript::new();
        t.append(&seed);
        let d = format!("degree bound {n}, {} coefficients, domain {size}", p.coefficients().len());
        ctx.sample(d.clone());
        ctx.nontrivial(&coef.iter().flat_map(|c| c.to_bytes_be()).collect::<Vec<u8>>());
        recorder::start();
        let (last, fl) = fri_commit_phase::<F, _>(layers, p, &mut t, &offset, size);
        let zetas: Vec<FE> = recorder::take()
            .into_iter()
            .filter_map(|e| match e {
                recorder::Event::Challenge(mut c) => {
                    c[0] &= 7;
                    Some(FE::from_bytes_be(&c).unwrap())
                }
                _ => None,
            })
            .collect();
        ensure!(fl.len() == layers && zetas.len() == layers, "layer-count", "{} layers, {} challenges: {d}", fl.len(), zetas.len());
        // each layer is the fold of the one before, checked against the polynomial itself
        let mut cur = coef.clone();
        let mut off = offset.clone();
        for (k, l) in fl.iter().enumerate() {
            let m = size >> k;
            ensure!(l.domain_size == m && l.evaluation.len() == m && l.coset_offset == off, "layer-domain", "layer {k} has domain {} of offset {}: {d}", l.domain_size, l.coset_offset);
            let w = F::get_primitive_root_of_unity(m.trailing_zeros() as u64).unwrap();
            // of large layers some positions settle it: two different polynomials below the
            // degree bound agree in at most one position in `blowup`
            let some: Vec<usize> = if every { (0..m).collect() } else { (0..12).map(|_| src.usize(0, m - 1)).collect() };
            for i in some {
                let x = &off * w.pow(i);
                ensure!(l.evaluation[i] == horner(&cur, &x), "layer-value", "layer {k} position {i} is not the fold of the layer before: {d}");
            }
            let root = lambdaworks_stark::starks::config::FriMerkleTree::<F>::build(&l.evaluation).root;
            ensure!(root == l.merkle_tree.root, "layer-root", "layer {k} commits to something else: {d}");
            let zero = FE::zero();
            cur = (0..cur.len().div_ceil(2)).map(|i| &cur[2 * i] + &zetas[k] * cur.get(2 * i + 1).unwrap_or(&zero)).collect();
            off = off.square();
        }
        ensure!(cur[1..].iter().all(|v| *v == FE::zero()) && last == cur[0], "last-value", "last value {} instead of {}: {d}", short(&last), short(&cur[0]));
        // queries answered from the committed layers at the drawn positions
        let q = src.usize(1, 9);
        let air = FibonacciAIR::<F>::new(
            n.max(2),
            &FibonacciPublicInputs { a0: FE::one(), a1: FE::one() },
            &ProofOptions { blowup_factor: blowup as u8, fri_number_of_queries: q, coset_offset: 3, grinding_factor: 0 },
        );
        let (queries, iotas) = fri_query_phase(&air, size, &fl, &mut t);
        ensure!(queries.len() == q && iotas.len() == q, "query-count", "{} queries, {} positions, {q} demanded: {d}", queries.len(), iotas.len());
        let half = FE::from(2).inv();
        for (i, (dq, iota)) in queries.iter().zip(&iotas).enumerate() {
            ensure!(*iota < size, "query-position", "position {iota} of {size}: {d}");
            let complete = dq.layers_evaluations.len() == layers
                && dq.layers_evaluations_sym.len() == layers
                && dq.layers_auth_paths.len() == layers
                && dq.layers_auth_paths_sym.len() == layers;
            ensure!(complete, "query-incomplete", "query {i} is incomplete: {d}");
            for k in 0..layers {
                let l = &fl[k];
                let m = size >> k;
                let (a, s) = (iota % m, (iota + m / 2) % m);
                let (va, vs) = (&dq.layers_evaluations[k], &dq.layers_evaluations_sym[k]);
                ensure!(*va == l.evaluation[a] && *vs == l.evaluation[s], "query-value", "query {i} layer {k}: {d}");
                let ok = dq.layers_auth_paths[k].verify::<FriMerkleTreeBackend<F>>(&l.merkle_tree.root, a, va)
                    && dq.layers_auth_paths_sym[k].verify::<FriMerkleTreeBackend<F>>(&l.merkle_tree.root, s, vs);
                ensure!(ok, "query-path", "query {i} layer {k}: {d}");
                // and the fold relation holds between the opened values
                let w = F::get_primitive_root_of_unity(m.trailing_zeros() as u64).unwrap();
                let x = &l.coset_offset * w.pow(a);
                let v = (va + vs) * &half + &zetas[k] * (va - vs) * &half * x.inv();
                let next = if k + 1 < layers { &fl[k + 1].evaluation[iota % (m / 2)] } else { &last };
                ensure!(v == *next, "fold-relation", "query {i} layer {k}: {d}");
            }
        }
        Ok(())
    };
    c.run("commit and query phases", n, |src, ctx| {
        let (log, blowup) = (src.usize(0, 6), 1 << src.usize(1, 4));
        phases(src, ctx, log, blowup, true)
    });
    let n = c.n(24, 200);
    c.run("commit and query phases of large polynomials", n, |src, ctx| {
        let (log, blowup) = (src.usize(7, 15), 1 << src.usize(1, 2));
        phases(src, ctx, log, blowup, false)
    });

    // the required combination, committed to by an independent honest prover, passes
    let n = c.n(1500, 20_000);
    c.run("independent honest prover", n, |src, ctx| {
        let s: Box<dyn System> = match src.upto(16) {
            16 => sys::cairo_or(src, &cfg),
            0 => Box::new(sys::generated(src, &Cfg { min_log: 1, max_log: 3, wide: true, ..Cfg::default() })),
            1 => Box::new(sys::generated(src, &Cfg { min_log: 7, max_log: 8, max_main: 2, ..Cfg::default() })),
            _ => sys::random(src, &cfg),
        };
        let opts = sys::options_for(src, &*s, 0);
        if let Some(o) = s.adversary(src, &opts, &Cheat::None) {
            let d = format!("{} under {:?}", s.describe(), opts);
            ctx.nontrivial(d.as_bytes());
            let r = s.verify(&o.proof, &opts);
            ensure!(r == Ok(true), "honest-rejected", "proof of an independent honest prover rejected ({r:?}): {d}");
        }
        Ok(())
    });
    c.assume("false acceptance has probability about blowup^-queries <= 2^-36 per case; deviations which leave every committed value as it was are not counted");
    c.assume("the independent prover follows the protocol as documented: transcript order, coefficient order and domains");
    c.finish()
}
