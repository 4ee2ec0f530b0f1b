//! An independent verifier, written from the description of the protocol: it
//! derives every challenge itself from the messages in the proof and checks
//! every link with them.  It shares with the crate only the constraint system
//! (the AIR), the field and the proof object.
use crate::{F, FE};
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use lambdaworks_math::{field::traits::IsFFTField, traits::ByteConversion};
use lambdaworks_stark::starks::{
    frame::Frame,
    proof::{options::ProofOptions, stark::StarkProof},
    traits::AIR,
};
use sha3::{Digest, Keccak256};

/// The link of the argument that does not hold.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Broken {
    Shape,
    ProofOfWork,
    OutOfDomain,
    TraceOpening,
    CompositionOpening,
    LayerOpening,
    Fold,
    LastValue,
    Combination,
}

fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

fn draw(t: &mut DefaultTranscript) -> FE {
    let mut b = t.challenge();
    b[0] &= 0x07;
    FE::from_bytes_be(&b).unwrap()
}

fn root(n: usize) -> FE {
    F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap()
}

/// Is the leaf at this position of the committed tree?
fn opens(root: &[u8; 32], path: &[[u8; 32]], position: usize, leaf: &[&FE]) -> bool {
    let bytes: Vec<u8> = leaf.iter().flat_map(|v| v.to_bytes_be()).collect();
    let mut h = keccak(&[&bytes]);
    for (level, sibling) in path.iter().enumerate() {
        h = if position >> level & 1 == 0 { keccak(&[&h, sibling]) } else { keccak(&[sibling, &h]) };
    }
    h == *root
}

pub fn verify<A: AIR<Field = F>>(p: &StarkProof<F>, pubs: &A::PublicInputs, opts: &ProofOptions) -> Result<(), Broken> {
    let n = p.trace_length;
    let air = A::new(n, pubs, opts);
    let ctx = air.context().clone();
    let size = n * opts.blowup_factor as usize;
    let depth = size.trailing_zeros() as usize;
    let layers = (n.trailing_zeros() as usize).max(1);
    let aux = air.number_auxiliary_rap_columns();
    let width = ctx.trace_columns;
    let trees = if aux > 0 { 2 } else { 1 };
    let rows = ctx.transition_offsets.len();
    let queries = opts.fri_number_of_queries;
    let shape = p.lde_trace_merkle_roots.len() == trees
        && p.trace_ood_frame_evaluations.num_rows() == rows
        && p.trace_ood_frame_evaluations.num_columns() == width
        && p.fri_layers_merkle_roots.len() == layers
        && p.query_list.len() == queries
        && p.deep_poly_openings.len() == queries
        && p.query_list.iter().all(|q| {
            q.layers_evaluations.len() == layers
                && q.layers_evaluations_sym.len() == layers
                && q.layers_auth_paths.len() == layers
                && q.layers_auth_paths_sym.len() == layers
                && (0..layers).all(|k| {
                    q.layers_auth_paths[k].merkle_path.len() == depth - k
                        && q.layers_auth_paths_sym[k].merkle_path.len() == depth - k
                })
        })
        && p.deep_poly_openings.iter().all(|o| {
            o.lde_trace_evaluations.len() == width
                && o.lde_composition_poly_proof.merkle_path.len() == depth
                && o.lde_trace_merkle_proofs.len() == trees
                && o.lde_trace_merkle_proofs.iter().all(|m| m.merkle_path.len() == depth)
        });
    if !shape {
        return Err(Broken::Shape);
    }
    let g = root(n);
    let w = root(size);
    let offset = FE::from(opts.coset_offset);

    // -- challenges, in the order of the messages
    let mut t = DefaultTranscript::new();
    t.append(&p.lde_trace_merkle_roots[0]);
    let rap = air.build_rap_challenges(&mut t);
    if trees == 2 {
        t.append(&p.lde_trace_merkle_roots[1]);
    }
    let bcs = air.boundary_constraints(&rap).constraints;
    let nt = ctx.num_transition_constraints;
    let mut many = |t: &mut DefaultTranscript, k: usize| -> Vec<FE> { (0..k).map(|_| draw(t)).collect() };
    let (ba, bb) = (many(&mut t, bcs.len()), many(&mut t, bcs.len()));
    let (ta, tb) = (many(&mut t, nt), many(&mut t, nt));
    t.append(&p.composition_poly_root);
    let z = loop {
        let z = draw(&mut t);
        if z.pow(n) != FE::one() && z.pow(size) != offset.pow(size) {
            break z;
        }
    };
    t.append(&p.composition_poly_even_ood_evaluation.to_bytes_be());
    t.append(&p.composition_poly_odd_ood_evaluation.to_bytes_be());
    let ood: Vec<Vec<FE>> = (0..rows).map(|r| p.trace_ood_frame_evaluations.get_row(r).to_vec()).collect();
    for v in ood.iter().flatten() {
        t.append(&v.to_bytes_be());
    }
    let (ge, go) = (draw(&mut t), draw(&mut t));
    let gt: Vec<Vec<FE>> = (0..width).map(|_| many(&mut t, rows)).collect();
    let zetas: Vec<FE> = p
        .fri_layers_merkle_roots
        .iter()
        .map(|r| {
            t.append(r);
            draw(&mut t)
        })
        .collect();
    t.append(&p.fri_last_value.to_bytes_be());
    let work = t.challenge();
    t.append(&p.nonce.to_be_bytes());
    let digest = keccak(&[&work, &p.nonce.to_le_bytes()]);
    if u64::from_be_bytes(digest[..8].try_into().unwrap()).trailing_zeros() < opts.grinding_factor as u32 {
        return Err(Broken::ProofOfWork);
    }

    // -- the constraints, at z
    let d = air.composition_poly_degree_bound();
    let mut sum = FE::zero();
    for (k, c) in bcs.iter().enumerate() {
        let weight = &ba[k] * z.pow(d - n) + &bb[k];
        sum = sum + (&ood[0][c.col] - &c.value) * (&z - g.pow(c.step)).inv() * weight;
    }
    let zerofier = (z.pow(n) - FE::one()).inv();
    for (k, v) in air.compute_transition(&Frame::new(ood.concat(), width), &rap).iter().enumerate() {
        let exempt = (1..=ctx.transition_exemptions[k]).fold(FE::one(), |a, e| a * (&z - g.pow(n - e)));
        let weight = &ta[k] * z.pow(d - n * (ctx.transition_degrees[k] - 1)) + &tb[k];
        sum = sum + v * &zerofier * exempt * weight;
    }
    let (h1, h2) = (&p.composition_poly_even_ood_evaluation, &p.composition_poly_odd_ood_evaluation);
    if sum != h1 + &z * h2 {
        return Err(Broken::OutOfDomain);
    }

    // -- the queries
    let z2 = z.square();
    let half = FE::from(2).inv();
    for (q, o) in p.query_list.iter().zip(&p.deep_poly_openings) {
        let iota = u64::from_be_bytes(t.challenge()[..8].try_into().unwrap()) as usize % size;
        let x = &offset * w.pow(iota);
        let row = &o.lde_trace_evaluations;
        let parts = [&row[..width - aux], &row[width - aux..]];
        for k in 0..trees {
            let leaf: Vec<&FE> = parts[k].iter().collect();
            if !opens(&p.lde_trace_merkle_roots[k], &o.lde_trace_merkle_proofs[k].merkle_path, iota, &leaf) {
                return Err(Broken::TraceOpening);
            }
        }
        let (c1, c2) = (&o.lde_composition_poly_even_evaluation, &o.lde_composition_poly_odd_evaluation);
        if !opens(&p.composition_poly_root, &o.lde_composition_poly_proof.merkle_path, iota, &[c1, c2]) {
            return Err(Broken::CompositionOpening);
        }
        let mut deep = ((c1 - h1) * &ge + (c2 - h2) * &go) * (&x - &z2).inv();
        for (r, off) in ctx.transition_offsets.iter().enumerate() {
            let inv = (&x - &z * g.pow(*off)).inv();
            for c in 0..width {
                deep = deep + (&row[c] - &ood[r][c]) * &inv * &gt[c][r];
            }
        }
        if deep != q.layers_evaluations[0] {
            return Err(Broken::Combination);
        }
        let mut x = x;
        for k in 0..layers {
            let m = size >> k;
            let (at, sym) = (iota % m, (iota + m / 2) % m);
            let (a, s) = (&q.layers_evaluations[k], &q.layers_evaluations_sym[k]);
            if !opens(&p.fri_layers_merkle_roots[k], &q.layers_auth_paths[k].merkle_path, at, &[a])
                || !opens(&p.fri_layers_merkle_roots[k], &q.layers_auth_paths_sym[k].merkle_path, sym, &[s])
            {
                return Err(Broken::LayerOpening);
            }
            let next = (a + s) * &half + &zetas[k] * (a - s) * &half * x.inv();
            match q.layers_evaluations.get(k + 1) {
                Some(v) if *v != next => return Err(Broken::Fold),
                None if p.fri_last_value != next => return Err(Broken::LastValue),
                _ => {}
            }
            x = x.square();
        }
    }
    Ok(())
}
