//! An independent prover for the protocol, written from its description, that
//! can deviate at one chosen point and carries on consistently (recomputing the
//! transcript) after the deviation.  With `Cheat::None` it is an honest prover.
//!
//! Everything is computed on evaluations over the shifted domain, so it also
//! works for functions that are not of low degree.
use crate::{fe_nonzero, fe_other, fe_uniform, F, FE};
use engine::Src;
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use lambdaworks_math::{
    fft::polynomial::FFTPoly,
    field::traits::IsFFTField,
    polynomial::Polynomial,
    traits::ByteConversion,
};
use lambdaworks_stark::starks::{
    constraints::boundary::BoundaryConstraint,
    config::{BatchedMerkleTree, FriMerkleTree},
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::{
        options::ProofOptions,
        stark::{DeepPolynomialOpenings, StarkProof},
    },
    trace::TraceTable,
    traits::AIR,
};
use sha3::{Digest, Keccak256};

#[derive(Clone, Debug, PartialEq)]
pub enum Cheat {
    None,
    /// commit to random low-degree halves instead of the composition polynomial
    ForgedComposition,
    /// as above, and claim out-of-domain values for them that satisfy the consistency equation
    ForgedCompositionAndClaims,
    /// leave the constraints which the trace violates out of the composition polynomial
    OmitViolated,
    /// as above, and claim out-of-domain values that satisfy the consistency equation
    OmitViolatedAndClaim,
    /// lie about one out-of-domain trace value (and adjust a composition claim to match)
    ForgedTraceClaim,
    /// ForgedCompositionAndClaims, then run the low-degree test on an unrelated low-degree function
    SubstituteLowDegree,
    /// SubstituteLowDegree and forge the opened composition value so that the combination matches
    SubstituteAndForgeCompositionOpening,
    /// SubstituteLowDegree and forge one opened trace value (column) so that the combination matches
    SubstituteAndForgeTraceOpening(usize),
    /// ForgedCompositionAndClaims, switching to an unrelated low-degree function at FRI layer j >= 1
    SwitchLayer(usize),
    /// SwitchLayer and forge the symmetric opening of the layer before so that folds match
    SwitchLayerForgeSym(usize),
    /// honest proof, wrong last value
    WrongLastValue,
    /// ForgedCompositionAndClaims, switching at the end: one extra evaluation per query replaces the last value
    ExtraLayerEvaluation,
    /// ForgedCompositionAndClaims with no FRI layers at all
    NoLayers,
    /// ForgedCompositionAndClaims stopping the folding after k layers
    FewerLayers(usize),
    /// a function of twice the degree bound, folded one extra time
    ExtraLayer,
    /// ForgedCompositionAndClaims with only the first k queries answered
    FewerQueries(usize),
    /// ForgedCompositionAndClaims, all queries answered in the low-degree test, no openings
    NoOpenings,
    /// honest proof whose nonce misses the difficulty
    WeakNonce,
    /// first layer differs from the combination on a class of positions
    CorruptedRegion(u8),
    /// composition commitment differs from the polynomial on a class of positions
    CorruptedOpeningRegion(u8),
    /// fold with a wrong challenge from layer j on
    WrongZeta(usize),
    /// honest except that one column is extended by a polynomial of degree > n
    HighDegree,
    /// layer k committed with one half of the positions shifted by a constant
    CorruptedLayer(usize, u8),
    /// openings at positions other than the drawn ones
    OtherPositions,
    /// the low-degree test answered at other positions than the openings
    ShiftedQueries,
    /// any composition: a trace value of a column >= c is claimed to fit it, and these columns are left out of the combination
    OmitColumns(usize),
    /// the same with the values of frame row r
    OmitRow(usize),
    /// the same with one half of the composition
    OmitHalf(u8),
}

fn f_from(mut r: [u8; 32]) -> FE {
    r[0] &= 0x07;
    FE::from_bytes_be(&r).unwrap()
}

fn draw(t: &mut DefaultTranscript) -> FE {
    f_from(t.challenge())
}

fn zeros(challenge: &[u8; 32], nonce: u64) -> u8 {
    let mut h = Keccak256::new();
    h.update(challenge);
    h.update(nonce.to_le_bytes());
    let d = h.finalize();
    u64::from_be_bytes(d[..8].try_into().unwrap()).trailing_zeros() as u8
}

fn lde(p: &Polynomial<FE>, size: usize, offset: &FE) -> Vec<FE> {
    let mut c: Vec<FE> = p.coefficients().to_vec();
    c.resize(size.max(c.len()), FE::zero());
    assert!(c.len() == size, "polynomial larger than the domain");
    Polynomial::new(&c).evaluate_offset_fft(1, Some(size), offset).unwrap()
}

fn random_poly(src: &mut Src, n: usize) -> Polynomial<FE> {
    // a few random coefficients are enough; always one at the top
    let mut c = vec![FE::zero(); n];
    for _ in 0..n.min(6) {
        let i = src.usize(0, n - 1);
        c[i] = fe_uniform(src);
    }
    c[n - 1] = fe_nonzero(src);
    c[0] = fe_uniform(src);
    Polynomial::new(&c)
}

fn inv_all(mut v: Vec<FE>) -> Vec<FE> {
    FE::inplace_batch_inverse(&mut v);
    v
}

/// Fold evaluations over {offset * w^i} with `zeta`.
fn fold(evals: &[FE], offset: &FE, zeta: &FE) -> Vec<FE> {
    let n = evals.len();
    let w = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
    let two_inv = FE::from(2).inv();
    let mut x = offset.clone();
    let mut xs = Vec::with_capacity(n / 2);
    for _ in 0..n / 2 {
        xs.push(x.clone());
        x = x * &w;
    }
    let xi = inv_all(xs);
    (0..n / 2)
        .map(|i| {
            let (a, b) = (&evals[i], &evals[i + n / 2]);
            (a + b) * &two_inv + zeta * (a - b) * &two_inv * &xi[i]
        })
        .collect()
}

fn in_region(class: u8, i: usize, n: usize) -> bool {
    match class {
        0 => i % 2 == 0,
        1 => i % 2 == 1,
        2 => i < n / 2,
        3 => i >= n / 2,
        4 => i % 4 < 2,
        5 => (i / (n / 4)) % 2 == 1,
        6 => i % 4 >= 2,
        _ => (i / (n / 4)) % 2 == 0,
    }
}

pub struct Out {
    pub proof: StarkProof<F>,
    pub iotas: Vec<usize>,
    /// the deviation really changed something
    pub effective: bool,
}

/// Run the protocol. None when the requested deviation does not apply.
pub fn prove<A>(
    src: &mut Src,
    main: &TraceTable<F>,
    pubs: &A::PublicInputs,
    opts: &ProofOptions,
    cheat: &Cheat,
) -> Option<Out>
where
    A: AIR<Field = F>,
{
    let n = main.n_rows();
    let air = A::new(n, pubs, opts);
    let ctx = air.context().clone();
    let blowup = opts.blowup_factor as usize;
    let size = n * blowup;
    let offset = FE::from(opts.coset_offset);
    let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
    let w = F::get_primitive_root_of_unity(size.trailing_zeros() as u64).unwrap();
    let mut xs = Vec::with_capacity(size);
    let mut x = offset.clone();
    for _ in 0..size {
        xs.push(x.clone());
        x = x * &w;
    }
    let mut t = DefaultTranscript::new();
    let mut effective = true;

    // -- trace commitments
    let cols = main.cols();
    let mut polys: Vec<Polynomial<FE>> = cols.iter().map(|c| Polynomial::interpolate_fft(c).unwrap()).collect();
    if *cheat == Cheat::HighDegree {
        let k = src.usize(0, polys.len() - 1);
        let mut c = polys[k].coefficients().to_vec();
        c.resize(2 * n, FE::zero());
        // the DEEP quotient lowers the degree by one, so degree n would still pass
        if n == 1 {
            return None;
        }
        let i = src.usize(1, n - 1);
        let v = fe_nonzero(src);
        c[i] = &c[i] - &v;
        c[i + n] = &c[i + n] + &v;
        polys[k] = Polynomial::new(&c);
    }
    if *cheat == Cheat::ExtraLayer {
        // same values on the trace domain, twice the degree: t + (x^n - 1) r
        let r = random_poly(src, n);
        let mut c = polys[0].coefficients().to_vec();
        c.resize(2 * n, FE::zero());
        for (i, v) in r.coefficients().iter().enumerate() {
            c[i] = &c[i] - v;
            c[i + n] = &c[i + n] + v;
        }
        polys[0] = Polynomial::new(&c);
        if 2 * n >= size {
            return None;
        }
    }
    let mut ldes: Vec<Vec<FE>> = polys.iter().map(|p| lde(p, size, &offset)).collect();
    let commit = |ldes: &[Vec<FE>]| {
        let rows: Vec<Vec<FE>> = (0..size).map(|i| ldes.iter().map(|c| c[i].clone()).collect()).collect();
        BatchedMerkleTree::<F>::build(&rows)
    };
    let mut trees = vec![commit(&ldes)];
    t.append(&trees[0].root);
    let rap = air.build_rap_challenges(&mut t);
    let aux = air.build_auxiliary_trace(main, &rap);
    if aux.n_cols > 0 {
        let ap: Vec<Polynomial<FE>> = aux.cols().iter().map(|c| Polynomial::interpolate_fft(c).unwrap()).collect();
        let al: Vec<Vec<FE>> = ap.iter().map(|p| lde(p, size, &offset)).collect();
        trees.push(commit(&al));
        t.append(&trees[1].root);
        polys.extend(ap);
        ldes.extend(al);
    }
    let width = polys.len();

    // -- composition
    let bcs = air.boundary_constraints(&rap);
    let nb = bcs.constraints.len();
    let nt = ctx.num_transition_constraints;
    let ba: Vec<FE> = (0..nb).map(|_| draw(&mut t)).collect();
    let bb: Vec<FE> = (0..nb).map(|_| draw(&mut t)).collect();
    let ta: Vec<FE> = (0..nt).map(|_| draw(&mut t)).collect();
    let tb: Vec<FE> = (0..nt).map(|_| draw(&mut t)).collect();
    let d = air.composition_poly_degree_bound();
    // constraints violated by the trace (main and auxiliary)
    let mut skip_t = vec![false; nt];
    let mut skip_b = vec![false; nb];
    let omit = matches!(cheat, Cheat::OmitViolated | Cheat::OmitViolatedAndClaim);
    if omit {
        let mut full = main.rows();
        if aux.n_cols > 0 {
            for (r, a) in full.iter_mut().zip(aux.rows()) {
                r.extend(a);
            }
        }
        for i in 0..n {
            let mut data = Vec::new();
            for o in &ctx.transition_offsets {
                data.extend(full[(i + o) % n].iter().cloned());
            }
            for (k, v) in air.compute_transition(&Frame::new(data, width), &rap).iter().enumerate() {
                if i + ctx.transition_exemptions[k] < n && *v != FE::zero() {
                    skip_t[k] = true;
                }
            }
        }
        for (k, c) in bcs.constraints.iter().enumerate() {
            skip_b[k] = full[c.step][c.col] != c.value;
        }
        effective = skip_t.iter().chain(&skip_b).any(|x| *x);
    }
    // value of the composition at x for a given frame
    let composition = |x: &FE, frame: &Frame<F>, row0: &[FE], all: bool| -> FE {
        let mut acc = FE::zero();
        let adj = x.pow(d - n);
        for (k, c) in bcs.constraints.iter().enumerate() {
            if skip_b[k] && !all {
                continue;
            }
            acc = acc + (&row0[c.col] - &c.value) * (x - g.pow(c.step)).inv() * (&ba[k] * &adj + &bb[k]);
        }
        let tr = air.compute_transition(frame, &rap);
        let z = (x.pow(n) - FE::one()).inv();
        for k in 0..nt {
            if skip_t[k] && !all {
                continue;
            }
            let mut v = &tr[k] * &z;
            for e in 1..=ctx.transition_exemptions[k] {
                v = v * (x - g.pow(n - e));
            }
            let adj = x.pow(d - n * (ctx.transition_degrees[k] - 1));
            acc = acc + v * (&ta[k] * adj + &tb[k]);
        }
        acc
    };
    let forged_h = matches!(
        cheat,
        Cheat::ForgedComposition
            | Cheat::ForgedCompositionAndClaims
            | Cheat::SubstituteLowDegree
            | Cheat::SubstituteAndForgeCompositionOpening
            | Cheat::SubstituteAndForgeTraceOpening(_)
            | Cheat::SwitchLayer(_)
            | Cheat::SwitchLayerForgeSym(_)
            | Cheat::ExtraLayerEvaluation
            | Cheat::NoLayers
            | Cheat::FewerLayers(_)
            | Cheat::FewerQueries(_)
            | Cheat::NoOpenings
            | Cheat::OmitColumns(_)
            | Cheat::OmitRow(_)
            | Cheat::OmitHalf(_)
    );
    let (h1, h2) = if forged_h {
        (random_poly(src, n), random_poly(src, n))
    } else {
        let evals: Vec<FE> = (0..size)
            .map(|i| {
                let mut data = Vec::new();
                for o in &ctx.transition_offsets {
                    let r = (i + o * blowup) % size;
                    data.extend(ldes.iter().map(|c| c[r].clone()));
                }
                let row0: Vec<FE> = ldes.iter().map(|c| c[i].clone()).collect();
                composition(&xs[i], &Frame::new(data, width), &row0, false)
            })
            .collect();
        let h = Polynomial::interpolate_offset_fft(&evals, &offset).unwrap();
        let c = h.coefficients();
        let even: Vec<FE> = c.iter().step_by(2).cloned().collect();
        let odd: Vec<FE> = c.iter().skip(1).step_by(2).cloned().collect();
        (Polynomial::new(&even), Polynomial::new(&odd))
    };
    let mut l1 = lde(&h1, size, &offset);
    let l2 = lde(&h2, size, &offset);
    if let Cheat::CorruptedOpeningRegion(c) = cheat {
        let delta = fe_nonzero(src);
        for i in 0..size {
            if in_region(*c, i, size) {
                l1[i] = &l1[i] + &delta;
            }
        }
    }
    let comp_rows: Vec<Vec<FE>> = (0..size).map(|i| vec![l1[i].clone(), l2[i].clone()]).collect();
    let comp_tree = BatchedMerkleTree::<F>::build(&comp_rows);
    t.append(&comp_tree.root);

    // -- out-of-domain values
    let z = draw(&mut t); // colliding with a domain point is negligible
    let z2 = z.square();
    let mut h1z = h1.evaluate(&z2);
    let mut h2z = h2.evaluate(&z2);
    let mut ood: Vec<Vec<FE>> = ctx
        .transition_offsets
        .iter()
        .map(|o| {
            let p = &z * g.pow(*o);
            polys.iter().map(|q| q.evaluate(&p)).collect()
        })
        .collect();
    if *cheat == Cheat::ForgedTraceClaim {
        let r = src.usize(0, ood.len() - 1);
        let c = src.usize(0, width - 1);
        ood[r][c] = fe_other(src, &ood[r][c].clone());
    }
    let composed = |ood: &Vec<Vec<FE>>| composition(&z, &Frame::new(ood.concat(), width), &ood[0], true);
    match cheat {
        Cheat::OmitColumns(_) | Cheat::OmitRow(_) => {
            // a claim nothing binds is chosen so that the claims about the composition fit
            let (rs, cs) = match cheat {
                Cheat::OmitColumns(c) => (0..ood.len(), *c % width..width),
                Cheat::OmitRow(r) => (*r % ood.len()..*r % ood.len() + 1, 0..width),
                _ => unreachable!(),
            };
            let want = &h1z + &z * &h2z;
            let mut cells: Vec<(usize, usize)> = rs.flat_map(|r| cs.clone().map(move |c| (r, c))).collect();
            let first = src.usize(0, cells.len() - 1);
            cells.rotate_left(first);
            let mut found = false;
            for (r, c) in cells.into_iter().take(8) {
                let f: Vec<FE> = (0..3u64)
                    .map(|v| {
                        let mut o = ood.clone();
                        o[r][c] = FE::from(v);
                        composed(&o)
                    })
                    .collect();
                let slope = &f[1] - &f[0];
                if slope == FE::zero() || &f[2] - &f[1] != slope {
                    continue;
                }
                ood[r][c] = (&want - &f[0]) * slope.inv();
                found = true;
                break;
            }
            if !found {
                return None;
            }
        }
        Cheat::OmitHalf(0) => h1z = composed(&ood) - &z * &h2z,
        Cheat::OmitHalf(_) => h2z = (composed(&ood) - &h1z) * z.inv(),
        _ => {}
    }
    let claim_matches = forged_h && *cheat != Cheat::ForgedComposition
        || matches!(cheat, Cheat::ForgedTraceClaim | Cheat::OmitViolatedAndClaim);
    if claim_matches {
        let want = composition(&z, &Frame::new(ood.concat(), width), &ood[0], true);
        if src.bool() {
            h1z = &want - &z * &h2z;
        } else {
            h2z = (&want - &h1z) * z.inv();
        }
    }
    t.append(&h1z.to_bytes_be());
    t.append(&h2z.to_bytes_be());
    for r in &ood {
        for v in r {
            t.append(&v.to_bytes_be());
        }
    }

    // -- combination, pointwise
    let ge = draw(&mut t);
    let go = draw(&mut t);
    let gt: Vec<Vec<FE>> =
        (0..width).map(|_| (0..ctx.transition_offsets.len()).map(|_| draw(&mut t)).collect()).collect();
    let inv_z2 = inv_all(xs.iter().map(|x| x - &z2).collect());
    let inv_off: Vec<Vec<FE>> = ctx
        .transition_offsets
        .iter()
        .map(|o| {
            let p = &z * g.pow(*o);
            inv_all(xs.iter().map(|x| x - &p).collect())
        })
        .collect();
    let honest_l1: Vec<FE> = if matches!(cheat, Cheat::CorruptedOpeningRegion(_)) { lde(&h1, size, &offset) } else { l1.clone() };
    let deep: Vec<FE> = (0..size)
        .map(|i| {
            let mut acc = FE::zero();
            if *cheat != Cheat::OmitHalf(0) {
                acc = acc + (&honest_l1[i] - &h1z) * &inv_z2[i] * &ge;
            }
            if *cheat != Cheat::OmitHalf(1) {
                acc = acc + (&l2[i] - &h2z) * &inv_z2[i] * &go;
            }
            for c in 0..width {
                for r in 0..ood.len() {
                    if matches!(cheat, Cheat::OmitColumns(k) if c >= *k % width) || matches!(cheat, Cheat::OmitRow(k) if r == *k % ood.len()) {
                        continue;
                    }
                    acc = acc + (&ldes[c][i] - &ood[r][c]) * &inv_off[r][i] * &gt[c][r];
                }
            }
            acc
        })
        .collect();

    // -- FRI commit
    let log_n = n.trailing_zeros() as usize;
    let mut layers_n = log_n.max(1);
    match cheat {
        Cheat::NoLayers => layers_n = 0,
        Cheat::FewerLayers(k) => {
            if *k == 0 || *k >= layers_n {
                return None;
            }
            layers_n = *k;
        }
        Cheat::ExtraLayer => layers_n += 1,
        _ => {}
    }
    let substitute = matches!(
        cheat,
        Cheat::SubstituteLowDegree | Cheat::SubstituteAndForgeCompositionOpening | Cheat::SubstituteAndForgeTraceOpening(_)
    );
    let mut cur = if substitute { lde(&random_poly(src, n), size, &offset) } else { deep.clone() };
    let mut off = offset.clone();
    let mut layers: Vec<Vec<FE>> = Vec::new();
    let mut offs: Vec<FE> = Vec::new();
    let mut zetas: Vec<FE> = Vec::new();
    let mut wrong_fold = false;
    let mut fri_trees: Vec<FriMerkleTree<F>> = Vec::new();
    for k in 0..layers_n {
        let mut committed = cur.clone();
        if k == 0 {
            if let Cheat::CorruptedRegion(c) = cheat {
                let delta = fe_nonzero(src);
                for i in 0..size {
                    if in_region(*c, i, size) {
                        committed[i] = &committed[i] + &delta;
                    }
                }
            }
        }
        match cheat {
            Cheat::CorruptedLayer(j, c) if *j == k => {
                let m = committed.len();
                let delta = fe_nonzero(src);
                if m < 4 {
                    return None;
                }
                for i in 0..m {
                    if in_region(*c, i, m) {
                        committed[i] = &committed[i] + &delta;
                    }
                }
            }
            Cheat::SwitchLayer(j) | Cheat::SwitchLayerForgeSym(j) if *j == k => {
                if k == 0 {
                    return None;
                }
                let m = (n >> k).max(1);
                let p = random_poly(src, m);
                committed = lde(&p, committed.len(), &off);
                cur = committed.clone();
            }
            _ => {}
        }
        let tree = FriMerkleTree::<F>::build(&committed);
        t.append(&tree.root);
        let zeta = draw(&mut t);
        layers.push(committed);
        offs.push(off.clone());
        fri_trees.push(tree);
        let used = match cheat {
            Cheat::WrongZeta(j) if *j <= k => &zeta + FE::one(),
            _ => zeta.clone(),
        };
        let next = fold(&cur, &off, &used);
        if matches!(cheat, Cheat::WrongZeta(_)) && used != zeta {
            let good = fold(&cur, &off, &zeta);
            if good.iter().zip(&next).any(|(a, b)| a != b) {
                wrong_fold = true;
            }
        }
        zetas.push(zeta);
        cur = next;
        off = off.square();
    }
    match cheat {
        Cheat::SwitchLayer(j) | Cheat::SwitchLayerForgeSym(j) if *j >= layers_n => return None,
        Cheat::WrongZeta(j) | Cheat::CorruptedLayer(j, _) if *j >= layers_n => return None,
        _ => {}
    }
    let mut last = cur.get(src.usize(0, cur.len() - 1)).cloned().unwrap();
    if *cheat == Cheat::WrongLastValue {
        last = fe_other(src, &last);
    }
    t.append(&last.to_bytes_be());

    // -- grinding
    let ch = t.challenge();
    let nonce = if *cheat == Cheat::WeakNonce {
        if opts.grinding_factor == 0 {
            return None;
        }
        // misses by as little as possible half of the time
        let want = if src.bool() { opts.grinding_factor - 1 } else { 0 };
        (0..1u64 << 16).find(|k| zeros(&ch, *k) < opts.grinding_factor && zeros(&ch, *k) >= want)?
    } else {
        (0..u64::MAX).find(|k| zeros(&ch, *k) >= opts.grinding_factor)?
    };
    t.append(&nonce.to_be_bytes());
    let iotas: Vec<usize> = (0..opts.fri_number_of_queries)
        .map(|_| {
            let c = t.challenge();
            u64::from_be_bytes(c[..8].try_into().unwrap()) as usize % size
        })
        .collect();

    // -- queries and openings
    let two_inv = FE::from(2).inv();
    let mut queries = Vec::new();
    let mut openings = Vec::new();
    let (mut fri_at, mut open_at) = (iotas.clone(), iotas.clone());
    if matches!(cheat, Cheat::OtherPositions | Cheat::ShiftedQueries) {
        let by = src.usize(1, size - 1);
        for i in fri_at.iter_mut() {
            *i = (*i + by) % size;
        }
        if *cheat == Cheat::OtherPositions {
            open_at = fri_at.clone();
        }
        // functions which do not depend on the position cannot show it
        effective = deep.iter().any(|v| *v != deep[0])
            || *cheat == Cheat::OtherPositions && ldes.iter().any(|c| c.iter().any(|v| *v != c[0]));
    }
    for (iota, open) in fri_at.iter().zip(&open_at) {
        let mut q = FriDecommitment {
            layers_auth_paths_sym: vec![],
            layers_evaluations_sym: vec![],
            layers_auth_paths: vec![],
            layers_evaluations: vec![],
        };
        for (k, l) in layers.iter().enumerate() {
            let m = l.len();
            let (i, s) = (iota % m, (iota + m / 2) % m);
            q.layers_evaluations.push(l[i].clone());
            q.layers_evaluations_sym.push(l[s].clone());
            q.layers_auth_paths.push(fri_trees[k].get_proof_by_pos(i).unwrap());
            q.layers_auth_paths_sym.push(fri_trees[k].get_proof_by_pos(s).unwrap());
        }
        if let Cheat::SwitchLayerForgeSym(j) = cheat {
            // choose the symmetric value of layer j-1 so that its fold meets layer j
            let k = j - 1;
            let m = layers[k].len();
            let i = iota % m;
            let wk = F::get_primitive_root_of_unity(m.trailing_zeros() as u64).unwrap();
            let x = &offs[k] * wk.pow(i);
            let a = &layers[k][i];
            let want = &layers[*j][iota % (m / 2)];
            // (a+s)/2 + zeta (a-s)/(2x) = want
            let c = &zetas[k] * x.inv() * &two_inv;
            let den = &two_inv - &c;
            if den == FE::zero() {
                return None;
            }
            let s = (want - a * (&two_inv + &c)) * den.inv();
            q.layers_evaluations_sym[k] = s;
        }
        if *cheat == Cheat::ExtraLayerEvaluation || *cheat == Cheat::NoLayers {
            // what the fold of the last layer gives (or the combination itself)
            let m = size >> layers.len();
            q.layers_evaluations.push(if layers.is_empty() { deep[*iota].clone() } else { cur[iota % m].clone() });
        }
        queries.push(q);

        let row: Vec<FE> = ldes.iter().map(|c| c[*open].clone()).collect();
        let mut o = DeepPolynomialOpenings {
            lde_composition_poly_proof: comp_tree.get_proof_by_pos(*open).unwrap(),
            lde_composition_poly_even_evaluation: l1[*open].clone(),
            lde_composition_poly_odd_evaluation: l2[*open].clone(),
            lde_trace_merkle_proofs: trees.iter().map(|t| t.get_proof_by_pos(*open).unwrap()).collect(),
            lde_trace_evaluations: row,
        };
        let gap = &layers.first().map(|l| l[*open].clone()).unwrap_or_else(FE::zero) - &deep[*open];
        match cheat {
            Cheat::SubstituteAndForgeCompositionOpening => {
                if src.bool() {
                    o.lde_composition_poly_even_evaluation =
                        &l1[*open] + &gap * (&inv_z2[*open] * &ge).inv();
                } else {
                    o.lde_composition_poly_odd_evaluation = &l2[*open] + &gap * (&inv_z2[*open] * &go).inv();
                }
            }
            Cheat::SubstituteAndForgeTraceOpening(c) => {
                let c = c % width;
                let k = (0..ood.len()).fold(FE::zero(), |a, r| a + &inv_off[r][*open] * &gt[c][r]);
                o.lde_trace_evaluations[c] = &o.lde_trace_evaluations[c] + &gap * k.inv();
            }
            _ => {}
        }
        openings.push(o);
    }
    match cheat {
        Cheat::FewerQueries(k) => {
            if *k >= iotas.len() {
                return None;
            }
            queries.truncate(*k);
            openings.truncate(*k);
        }
        Cheat::NoOpenings => openings.clear(),
        Cheat::WrongZeta(_) => effective = wrong_fold,
        Cheat::CorruptedLayer(k, c) => {
            let m = size >> k;
            effective = iotas.iter().any(|i| in_region(*c, *i % m, m) || in_region(*c, (i + m / 2) % m, m));
        }
        Cheat::CorruptedRegion(c) => effective = iotas.iter().any(|i| in_region(*c, *i, size) || in_region(*c, (i + size / 2) % size, size)),
        Cheat::CorruptedOpeningRegion(c) => effective = iotas.iter().any(|i| in_region(*c, *i, size)),
        _ => {}
    }
    let proof = StarkProof {
        trace_length: n,
        lde_trace_merkle_roots: trees.iter().map(|t| t.root).collect(),
        trace_ood_frame_evaluations: Frame::new(ood.concat(), width),
        composition_poly_root: comp_tree.root,
        composition_poly_even_ood_evaluation: h1z,
        composition_poly_odd_ood_evaluation: h2z,
        fri_layers_merkle_roots: fri_trees.iter().map(|t| t.root).collect(),
        fri_last_value: last,
        query_list: queries,
        deep_poly_openings: openings,
        nonce,
    };
    Some(Out { proof, iotas, effective })
}

/// The adaptive attack on a transcript without the statement: the challenges
/// (alpha, beta of every boundary constraint, z) do not depend on the public
/// values, so one false value can be compensated by another one.
/// Returns the value which the second constraint must have.
pub fn compensate<A: AIR<Field = F>>(
    air: &A,
    proof: &StarkProof<F>,
    constraints: &[BoundaryConstraint<F>],
    (i, new_i): (usize, &FE),
    j: usize,
) -> Option<FE> {
    let n = proof.trace_length;
    let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).ok()?;
    let mut t = DefaultTranscript::new();
    t.append(&proof.lde_trace_merkle_roots[0]);
    let _ = air.build_rap_challenges(&mut t);
    if let Some(r) = proof.lde_trace_merkle_roots.get(1) {
        t.append(r);
    }
    let nb = constraints.len();
    let a: Vec<FE> = (0..nb).map(|_| draw(&mut t)).collect();
    let b: Vec<FE> = (0..nb).map(|_| draw(&mut t)).collect();
    for _ in 0..2 * air.context().num_transition_constraints {
        draw(&mut t);
    }
    t.append(&proof.composition_poly_root);
    let z = draw(&mut t);
    let adj = z.pow(air.composition_poly_degree_bound() - n);
    let weight = |k: usize| (&a[k] * &adj + &b[k]) * (&z - g.pow(constraints[k].step)).inv();
    // w_i (old_i - new_i) = w_j (new_j - old_j)
    let d = weight(i) * (&constraints[i].value - new_i);
    Some(&constraints[j].value + d * weight(j).inv())
}
