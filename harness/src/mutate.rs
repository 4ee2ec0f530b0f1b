//! Alterations of a proof: every single component, and structural edits of every list.
use crate::{fe_other, F, FE};
use engine::Src;
use lambdaworks_crypto::merkle_tree::proof::Proof as Path;
use lambdaworks_math::traits::Serializable;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};

pub type Proof = StarkProof<F>;

fn clone_path(p: &Path<[u8; 32]>) -> Path<[u8; 32]> {
    Path { merkle_path: p.merkle_path.clone() }
}

pub fn clone_query(q: &FriDecommitment<F>) -> FriDecommitment<F> {
    FriDecommitment {
        layers_auth_paths_sym: q.layers_auth_paths_sym.iter().map(clone_path).collect(),
        layers_evaluations_sym: q.layers_evaluations_sym.clone(),
        layers_auth_paths: q.layers_auth_paths.iter().map(clone_path).collect(),
        layers_evaluations: q.layers_evaluations.clone(),
    }
}

pub fn clone_opening(o: &DeepPolynomialOpenings<F>) -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: clone_path(&o.lde_composition_poly_proof),
        lde_composition_poly_even_evaluation: o.lde_composition_poly_even_evaluation.clone(),
        lde_composition_poly_odd_evaluation: o.lde_composition_poly_odd_evaluation.clone(),
        lde_trace_merkle_proofs: o.lde_trace_merkle_proofs.iter().map(clone_path).collect(),
        lde_trace_evaluations: o.lde_trace_evaluations.clone(),
    }
}

pub fn clone_proof(p: &Proof) -> Proof {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation.clone(),
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation.clone(),
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value.clone(),
        query_list: p.query_list.iter().map(clone_query).collect(),
        deep_poly_openings: p.deep_poly_openings.iter().map(clone_opening).collect(),
        nonce: p.nonce,
    }
}

pub fn same(a: &Proof, b: &Proof) -> bool {
    a.trace_length == b.trace_length
        && a.nonce == b.nonce
        && a.trace_ood_frame_evaluations == b.trace_ood_frame_evaluations
        && shape(a) == shape(b)
        && a.serialize() == b.serialize()
}

pub fn shape(p: &Proof) -> Vec<usize> {
    let mut v = vec![p.lde_trace_merkle_roots.len(), p.fri_layers_merkle_roots.len(), p.query_list.len(), p.deep_poly_openings.len()];
    for q in &p.query_list {
        v.extend([q.layers_auth_paths_sym.len(), q.layers_evaluations_sym.len(), q.layers_auth_paths.len(), q.layers_evaluations.len()]);
        v.extend(q.layers_auth_paths.iter().chain(&q.layers_auth_paths_sym).map(|x| x.merkle_path.len()));
    }
    for o in &p.deep_poly_openings {
        v.extend([o.lde_trace_merkle_proofs.len(), o.lde_trace_evaluations.len(), o.lde_composition_poly_proof.merkle_path.len()]);
        v.extend(o.lde_trace_merkle_proofs.iter().map(|x| x.merkle_path.len()));
    }
    v
}

pub fn frame_rows(f: &Frame<F>) -> Vec<Vec<FE>> {
    if f.num_columns() == 0 {
        return vec![];
    }
    (0..f.num_rows()).map(|i| f.get_row(i).to_vec()).collect()
}

/// One value of a proof.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Site {
    TraceLength,
    TraceRoot(usize),
    OodCell(usize, usize),
    CompositionRoot,
    OodEven,
    OodOdd,
    FriRoot(usize),
    LastValue,
    Nonce,
    LayerEval(usize, usize),
    LayerEvalSym(usize, usize),
    Path(usize, usize, usize),
    PathSym(usize, usize, usize),
    OpenEven(usize),
    OpenOdd(usize),
    OpenTrace(usize, usize),
    CompositionPath(usize, usize),
    TracePath(usize, usize, usize),
}

impl Site {
    pub fn class(&self) -> String {
        let s = format!("{self:?}");
        s.split('(').next().unwrap().to_string()
    }
}

pub fn sites(p: &Proof) -> Vec<Site> {
    use Site::*;
    let mut v = vec![TraceLength, CompositionRoot, OodEven, OodOdd, LastValue, Nonce];
    v.extend((0..p.lde_trace_merkle_roots.len()).map(TraceRoot));
    let f = &p.trace_ood_frame_evaluations;
    for r in 0..f.num_rows() {
        v.extend((0..f.num_columns()).map(|c| OodCell(r, c)));
    }
    v.extend((0..p.fri_layers_merkle_roots.len()).map(FriRoot));
    for (i, q) in p.query_list.iter().enumerate() {
        v.extend((0..q.layers_evaluations.len()).map(|k| LayerEval(i, k)));
        v.extend((0..q.layers_evaluations_sym.len()).map(|k| LayerEvalSym(i, k)));
        for (k, x) in q.layers_auth_paths.iter().enumerate() {
            v.extend((0..x.merkle_path.len()).map(|m| Path(i, k, m)));
        }
        for (k, x) in q.layers_auth_paths_sym.iter().enumerate() {
            v.extend((0..x.merkle_path.len()).map(|m| PathSym(i, k, m)));
        }
    }
    for (i, o) in p.deep_poly_openings.iter().enumerate() {
        v.push(OpenEven(i));
        v.push(OpenOdd(i));
        v.extend((0..o.lde_trace_evaluations.len()).map(|c| OpenTrace(i, c)));
        v.extend((0..o.lde_composition_poly_proof.merkle_path.len()).map(|m| CompositionPath(i, m)));
        for (t, x) in o.lde_trace_merkle_proofs.iter().enumerate() {
            v.extend((0..x.merkle_path.len()).map(|m| TracePath(i, t, m)));
        }
    }
    v
}

enum Slot<'a> {
    Fe(&'a mut FE),
    Node(&'a mut [u8; 32]),
    Len(&'a mut usize),
    Nonce(&'a mut u64),
}

fn slot<'a>(p: &'a mut Proof, s: &Site) -> Option<Slot<'a>> {
    use Site::*;
    Some(match *s {
        TraceLength => Slot::Len(&mut p.trace_length),
        TraceRoot(i) => Slot::Node(p.lde_trace_merkle_roots.get_mut(i)?),
        OodCell(r, c) => {
            let f = &mut p.trace_ood_frame_evaluations;
            if r >= f.num_rows() || c >= f.num_columns() {
                return None;
            }
            Slot::Fe(&mut f.get_row_mut(r)[c])
        }
        CompositionRoot => Slot::Node(&mut p.composition_poly_root),
        OodEven => Slot::Fe(&mut p.composition_poly_even_ood_evaluation),
        OodOdd => Slot::Fe(&mut p.composition_poly_odd_ood_evaluation),
        FriRoot(k) => Slot::Node(p.fri_layers_merkle_roots.get_mut(k)?),
        LastValue => Slot::Fe(&mut p.fri_last_value),
        Nonce => Slot::Nonce(&mut p.nonce),
        LayerEval(i, k) => Slot::Fe(p.query_list.get_mut(i)?.layers_evaluations.get_mut(k)?),
        LayerEvalSym(i, k) => Slot::Fe(p.query_list.get_mut(i)?.layers_evaluations_sym.get_mut(k)?),
        Path(i, k, m) => Slot::Node(p.query_list.get_mut(i)?.layers_auth_paths.get_mut(k)?.merkle_path.get_mut(m)?),
        PathSym(i, k, m) => Slot::Node(p.query_list.get_mut(i)?.layers_auth_paths_sym.get_mut(k)?.merkle_path.get_mut(m)?),
        OpenEven(i) => Slot::Fe(&mut p.deep_poly_openings.get_mut(i)?.lde_composition_poly_even_evaluation),
        OpenOdd(i) => Slot::Fe(&mut p.deep_poly_openings.get_mut(i)?.lde_composition_poly_odd_evaluation),
        OpenTrace(i, c) => Slot::Fe(p.deep_poly_openings.get_mut(i)?.lde_trace_evaluations.get_mut(c)?),
        CompositionPath(i, m) => Slot::Node(p.deep_poly_openings.get_mut(i)?.lde_composition_poly_proof.merkle_path.get_mut(m)?),
        TracePath(i, t, m) => {
            Slot::Node(p.deep_poly_openings.get_mut(i)?.lde_trace_merkle_proofs.get_mut(t)?.merkle_path.get_mut(m)?)
        }
    })
}

fn other_node(src: &mut Src, n: &[u8; 32]) -> [u8; 32] {
    let mut m = *n;
    match src.upto(3) {
        0 => m[src.usize(0, 31)] ^= 1 << src.upto(7),
        1 => m = [0; 32],
        2 => m.reverse(),
        _ => m = src.arr32(),
    }
    if &m == n {
        m[31] ^= 1;
    }
    m
}

/// Give one value of the proof another value.
pub fn alter(src: &mut Src, p: &mut Proof, s: &Site) {
    match slot(p, s) {
        Some(Slot::Fe(v)) => *v = fe_other(src, &v.clone()),
        Some(Slot::Node(v)) => *v = other_node(src, &v.clone()),
        Some(Slot::Len(v)) => {
            let old = *v;
            *v = match src.upto(6) {
                0 => old * 2,
                1 => old / 2,
                2 => old + 1,
                3 => 0,
                4 => 1usize << src.usize(0, 63),
                5 => src.edgy_u64() as usize,
                _ => old.wrapping_sub(1),
            };
            if *v == old {
                *v = old * 2;
            }
        }
        Some(Slot::Nonce(v)) => {
            let old = *v;
            *v = match src.upto(4) {
                0 => old.wrapping_add(1),
                1 => old.wrapping_sub(1),
                2 => old ^ (1 << src.upto(63)),
                3 => old.swap_bytes(),
                _ => src.edgy_u64(),
            };
            if *v == old {
                *v = old ^ 1;
            }
        }
        None => {}
    }
}

/// Copy the value at site `from` of `q` into site `to` of `p`.
pub fn copy(p: &mut Proof, to: &Site, q: &Proof, from: &Site) {
    let mut q = clone_proof(q);
    match (slot(p, to), slot(&mut q, from)) {
        (Some(Slot::Fe(a)), Some(Slot::Fe(b))) => *a = b.clone(),
        (Some(Slot::Node(a)), Some(Slot::Node(b))) => *a = *b,
        (Some(Slot::Len(a)), Some(Slot::Len(b))) => *a = *b,
        (Some(Slot::Nonce(a)), Some(Slot::Nonce(b))) => *a = *b,
        _ => {}
    }
}

fn edit<T: Clone>(src: &mut Src, v: &mut Vec<T>, other: &[T]) -> &'static str {
    let n = v.len();
    if n == 0 {
        if let Some(x) = other.first() {
            v.push(x.clone());
            return "filled";
        }
        return "nothing";
    }
    let i = match src.upto(2) {
        0 => 0,
        1 => n - 1,
        _ => src.usize(0, n - 1),
    };
    match src.upto(8) {
        0 => {
            v.remove(i);
            "dropped one"
        }
        1 => {
            let x = v[i].clone();
            v.insert(i, x);
            "duplicated one"
        }
        2 => {
            let x = v[src.usize(0, n - 1)].clone();
            v.push(x);
            "appended one"
        }
        3 => {
            let j = src.usize(0, n - 1);
            v.swap(i, j);
            "swapped two"
        }
        4 => {
            v.clear();
            "cleared"
        }
        5 => {
            v.reverse();
            "reversed"
        }
        6 => {
            let k = src.usize(0, n - 1);
            v.truncate(k);
            "cut"
        }
        7 if !other.is_empty() => {
            let k = i.min(other.len() - 1);
            v[i] = other[k].clone();
            "one from another proof"
        }
        _ => {
            if other.is_empty() {
                v.rotate_left(1);
                "rotated"
            } else {
                *v = other.to_vec();
                "all from another proof"
            }
        }
    }
}

/// A structural edit of one list (or a swap of two parallel lists). `other` is another valid proof.
pub fn restructure(src: &mut Src, p: &mut Proof, other: &Proof) -> String {
    let kind = src.upto(16);
    let q = if p.query_list.is_empty() { 0 } else { src.usize(0, p.query_list.len() - 1) };
    let o = if p.deep_poly_openings.is_empty() { 0 } else { src.usize(0, p.deep_poly_openings.len() - 1) };
    let oq = other.query_list.get(q).or(other.query_list.first()).map(clone_query);
    let oo = other.deep_poly_openings.get(o).or(other.deep_poly_openings.first()).map(clone_opening);
    let (Some(oq), Some(oo)) = (oq, oo) else { return "nothing".into() };
    let needs_query = (4..=9).contains(&kind) || kind == 15;
    if needs_query && p.query_list.is_empty() || (10..=13).contains(&kind) && p.deep_poly_openings.is_empty() {
        return "nothing".into();
    }
    match kind {
        0 => format!("trace roots: {}", edit(src, &mut p.lde_trace_merkle_roots, &other.lde_trace_merkle_roots)),
        1 => format!("FRI roots: {}", edit(src, &mut p.fri_layers_merkle_roots, &other.fri_layers_merkle_roots)),
        2 => format!("queries: {}", edit(src, &mut p.query_list, &other.query_list)),
        3 => format!("openings: {}", edit(src, &mut p.deep_poly_openings, &other.deep_poly_openings)),
        4 => format!("layer evaluations: {}", edit(src, &mut p.query_list[q].layers_evaluations, &oq.layers_evaluations)),
        5 => format!("symmetric evaluations: {}", edit(src, &mut p.query_list[q].layers_evaluations_sym, &oq.layers_evaluations_sym)),
        6 => format!("layer paths: {}", edit(src, &mut p.query_list[q].layers_auth_paths, &oq.layers_auth_paths)),
        7 => format!("symmetric paths: {}", edit(src, &mut p.query_list[q].layers_auth_paths_sym, &oq.layers_auth_paths_sym)),
        8 => {
            let d = &mut p.query_list[q];
            if d.layers_auth_paths.is_empty() {
                return "nothing".into();
            }
            let k = src.usize(0, d.layers_auth_paths.len() - 1);
            let ot = oq.layers_auth_paths.get(k).map(|x| x.merkle_path.clone()).unwrap_or_default();
            format!("nodes of a layer path: {}", edit(src, &mut d.layers_auth_paths[k].merkle_path, &ot))
        }
        9 => {
            let d = &mut p.query_list[q];
            if d.layers_auth_paths_sym.is_empty() {
                return "nothing".into();
            }
            let k = src.usize(0, d.layers_auth_paths_sym.len() - 1);
            let ot = oq.layers_auth_paths_sym.get(k).map(|x| x.merkle_path.clone()).unwrap_or_default();
            format!("nodes of a symmetric path: {}", edit(src, &mut d.layers_auth_paths_sym[k].merkle_path, &ot))
        }
        10 => format!("trace paths: {}", edit(src, &mut p.deep_poly_openings[o].lde_trace_merkle_proofs, &oo.lde_trace_merkle_proofs)),
        11 => format!("opened trace values: {}", edit(src, &mut p.deep_poly_openings[o].lde_trace_evaluations, &oo.lde_trace_evaluations)),
        12 => format!(
            "nodes of a composition path: {}",
            edit(src, &mut p.deep_poly_openings[o].lde_composition_poly_proof.merkle_path, &oo.lde_composition_poly_proof.merkle_path)
        ),
        13 => {
            let d = &mut p.deep_poly_openings[o];
            if d.lde_trace_merkle_proofs.is_empty() {
                return "nothing".into();
            }
            let k = src.usize(0, d.lde_trace_merkle_proofs.len() - 1);
            let ot = oo.lde_trace_merkle_proofs.get(k).map(|x| x.merkle_path.clone()).unwrap_or_default();
            format!("nodes of a trace path: {}", edit(src, &mut d.lde_trace_merkle_proofs[k].merkle_path, &ot))
        }
        14 => {
            let mut r = frame_rows(&p.trace_ood_frame_evaluations);
            if r.first().is_none_or(|x| x.is_empty()) {
                return "nothing".into();
            }
            let mut w = p.trace_ood_frame_evaluations.num_columns();
            let what = match src.upto(3) {
                0 => edit(src, &mut r, &frame_rows(&other.trace_ood_frame_evaluations)),
                1 => {
                    // same cells, another width
                    let cells = r.concat();
                    let divisors: Vec<usize> = (1..=cells.len()).filter(|d| cells.len() % d == 0).collect();
                    w = *src.pick(&divisors);
                    r = cells.chunks(w).map(|c| c.to_vec()).collect();
                    "another width"
                }
                2 => {
                    let c = src.usize(0, w - 1);
                    for row in r.iter_mut() {
                        row.remove(c);
                    }
                    w -= 1;
                    "one column dropped"
                }
                _ => {
                    for row in r.iter_mut() {
                        let c = row[0].clone();
                        row.push(c);
                    }
                    w += 1;
                    "one column appended"
                }
            };
            if w == 0 {
                w = 1;
            }
            if r.iter().any(|x| x.len() != w) {
                w = r.first().map_or(1, |x| x.len()).max(1);
            }
            p.trace_ood_frame_evaluations = Frame::new(r.concat(), w);
            format!("out-of-domain frame: {what}")
        }
        15 => {
            let d = &mut p.query_list[q];
            if src.bool() {
                std::mem::swap(&mut d.layers_evaluations, &mut d.layers_evaluations_sym);
                if src.bool() {
                    std::mem::swap(&mut d.layers_auth_paths, &mut d.layers_auth_paths_sym);
                    return "both halves of a query exchanged".into();
                }
                "evaluations exchanged with symmetric ones".into()
            } else {
                std::mem::swap(&mut d.layers_auth_paths, &mut d.layers_auth_paths_sym);
                "paths exchanged with symmetric ones".into()
            }
        }
        _ => match src.upto(2) {
            0 => {
                std::mem::swap(&mut p.composition_poly_even_ood_evaluation, &mut p.composition_poly_odd_ood_evaluation);
                "out-of-domain halves exchanged".into()
            }
            1 => {
                if let Some(r) = p.lde_trace_merkle_roots.first_mut() {
                    std::mem::swap(r, &mut p.composition_poly_root);
                }
                "trace and composition roots exchanged".into()
            }
            _ => {
                for d in p.deep_poly_openings.iter_mut() {
                    std::mem::swap(&mut d.lde_composition_poly_even_evaluation, &mut d.lde_composition_poly_odd_evaluation);
                }
                "opened halves exchanged everywhere".into()
            }
        },
    }
}

// ---------------------------------------------------------------- arbitrary shapes

use crate::{fe, fe_uniform};
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use std::collections::HashMap;

fn count(src: &mut Src, max: usize) -> usize {
    match src.upto(3) {
        0 => src.usize(0, 1),
        1 => 0,
        _ => src.usize(0, max),
    }
}

pub fn arb_path(src: &mut Src, max: usize) -> Path<[u8; 32]> {
    let n = count(src, max);
    Path { merkle_path: (0..n).map(|_| arb_node(src)).collect() }
}

fn arb_node(src: &mut Src) -> [u8; 32] {
    match src.upto(3) {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => src.arr32(),
    }
}

fn arb_fe(src: &mut Src) -> FE {
    if src.bool() {
        fe(src)
    } else {
        fe_uniform(src)
    }
}

fn list<T>(src: &mut Src, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let n = count(src, max);
    (0..n).map(|_| f(src)).collect()
}

pub fn arb_query(src: &mut Src) -> FriDecommitment<F> {
    FriDecommitment {
        layers_auth_paths_sym: list(src, 5, |s| arb_path(s, 5)),
        layers_evaluations_sym: list(src, 5, arb_fe),
        layers_auth_paths: list(src, 5, |s| arb_path(s, 5)),
        layers_evaluations: list(src, 5, arb_fe),
    }
}

pub fn arb_opening(src: &mut Src) -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: arb_path(src, 6),
        lde_composition_poly_even_evaluation: arb_fe(src),
        lde_composition_poly_odd_evaluation: arb_fe(src),
        lde_trace_merkle_proofs: list(src, 3, |s| arb_path(s, 6)),
        lde_trace_evaluations: list(src, 6, arb_fe),
    }
}

pub fn arb_frame(src: &mut Src) -> Frame<F> {
    let rows = count(src, 4);
    let width = src.usize(1, 6);
    let data: Vec<FE> = (0..rows * width).map(|_| arb_fe(src)).collect();
    match src.upto(7) {
        // widths that do not divide the data
        0 => Frame::new(data, src.edgy_u64() as usize),
        1 => Frame::new(data, 0),
        _ => Frame::new(data, width),
    }
}

/// A proof object of any shape, with no relation between its parts.
pub fn arb_proof(src: &mut Src) -> Proof {
    StarkProof {
        trace_length: match src.upto(2) {
            0 => src.edgy_u64() as usize,
            1 => 1usize << src.upto(63),
            _ => src.usize(0, 64),
        },
        lde_trace_merkle_roots: list(src, 3, arb_node),
        trace_ood_frame_evaluations: arb_frame(src),
        composition_poly_root: arb_node(src),
        composition_poly_even_ood_evaluation: arb_fe(src),
        composition_poly_odd_ood_evaluation: arb_fe(src),
        fri_layers_merkle_roots: list(src, 6, arb_node),
        fri_last_value: arb_fe(src),
        query_list: list(src, 4, arb_query),
        deep_poly_openings: list(src, 4, arb_opening),
        nonce: src.edgy_u64(),
    }
}

fn stretch<T: Clone>(src: &mut Src, v: &mut Vec<T>, n: usize, mut f: impl FnMut(&mut Src) -> T) {
    // a few different entries, repeated out of step with any power of two
    let some: Vec<T> = (0..7).map(|_| f(src)).collect();
    while v.len() < n {
        v.push(some[v.len() % 7].clone());
    }
}

/// A length far beyond what a small example has, around the limits of narrow integers.
fn long(src: &mut Src) -> usize {
    match src.upto(15) {
        0 => 65_536 + src.usize(0, 9),
        1 => src.usize(2_000, 20_000),
        2..=4 => src.usize(240, 1_100),
        5 | 6 => src.usize(250, 260),
        _ => src.usize(7, 140),
    }
}

/// Makes one list of the proof long; returns which.
pub fn lengthen(src: &mut Src, p: &mut Proof) -> (&'static str, usize) {
    let n = long(src);
    let empty = || Path { merkle_path: vec![] };
    let k = src.upto(13);
    if p.query_list.is_empty() {
        p.query_list.push(arb_query(src));
    }
    if p.deep_poly_openings.is_empty() {
        p.deep_poly_openings.push(arb_opening(src));
    }
    let at = src.usize(0, p.query_list.len() - 1);
    let to = src.usize(0, p.deep_poly_openings.len() - 1);
    let name = match k {
        0 => {
            stretch(src, &mut p.lde_trace_merkle_roots, n, arb_node);
            "trace roots"
        }
        1 => {
            let mut d = vec![];
            let w = src.usize(1, 3);
            stretch(src, &mut d, n * w, arb_fe);
            p.trace_ood_frame_evaluations = Frame::new(d, w);
            "frame rows"
        }
        2 => {
            let mut d = vec![];
            let r = src.usize(1, 3);
            stretch(src, &mut d, n * r, arb_fe);
            p.trace_ood_frame_evaluations = Frame::new(d, n);
            "frame columns"
        }
        3 => {
            stretch(src, &mut p.fri_layers_merkle_roots, n, arb_node);
            "layer roots"
        }
        4 => {
            stretch(src, &mut p.query_list, n, arb_query);
            "queries"
        }
        5 => {
            stretch(src, &mut p.deep_poly_openings, n, arb_opening);
            "openings"
        }
        6 | 7 => {
            let q = &mut p.query_list[at];
            let l = if k == 6 { &mut q.layers_auth_paths } else { &mut q.layers_auth_paths_sym };
            if src.bool() {
                stretch(src, l, n, |s| arb_path(s, 4));
                "layer paths"
            } else {
                if l.is_empty() {
                    l.push(empty());
                }
                let i = src.usize(0, l.len() - 1);
                stretch(src, &mut l[i].merkle_path, n, arb_node);
                "one layer path"
            }
        }
        8 => {
            stretch(src, &mut p.query_list[at].layers_evaluations, n, arb_fe);
            "layer evaluations"
        }
        9 => {
            stretch(src, &mut p.query_list[at].layers_evaluations_sym, n, arb_fe);
            "symmetric layer evaluations"
        }
        10 => {
            stretch(src, &mut p.deep_poly_openings[to].lde_composition_poly_proof.merkle_path, n, arb_node);
            "composition path"
        }
        11 => {
            stretch(src, &mut p.deep_poly_openings[to].lde_trace_merkle_proofs, n, |s| arb_path(s, 4));
            "trace paths"
        }
        12 => {
            let l = &mut p.deep_poly_openings[to].lde_trace_merkle_proofs;
            if l.is_empty() {
                l.push(empty());
            }
            let i = src.usize(0, l.len() - 1);
            stretch(src, &mut l[i].merkle_path, n, arb_node);
            "one trace path"
        }
        _ => {
            stretch(src, &mut p.deep_poly_openings[to].lde_trace_evaluations, n, arb_fe);
            "trace evaluations"
        }
    };
    (name, n)
}

/// Public inputs with many public memory cells.
pub fn lengthen_public(src: &mut Src, p: &mut PublicInputs) -> usize {
    let n = long(src);
    let base = src.upto(1 << 40);
    for i in 0..n as u64 {
        p.public_memory.insert(FE::from(base + i), FE::from(base.wrapping_mul(i + 3)));
    }
    n
}

pub fn arb_public(src: &mut Src) -> PublicInputs {
    let bound = |src: &mut Src| match src.upto(4) {
        0 => None,
        1 => Some(0),
        2 => Some(u16::MAX),
        _ => Some(src.upto(65535) as u16),
    };
    let mut memory_segments = MemorySegmentMap::new();
    for s in [MemorySegment::RangeCheck, MemorySegment::Output] {
        if src.bool() {
            let a = src.edgy_u64();
            memory_segments.insert(s, a..src.edgy_u64());
        }
    }
    let n = count(src, 12);
    let public_memory: HashMap<FE, FE> = (0..n).map(|_| (arb_fe(src), arb_fe(src))).collect();
    PublicInputs {
        pc_init: arb_fe(src),
        ap_init: arb_fe(src),
        fp_init: arb_fe(src),
        pc_final: arb_fe(src),
        ap_final: arb_fe(src),
        range_check_min: bound(src),
        range_check_max: bound(src),
        memory_segments,
        public_memory,
        num_steps: src.edgy_u64() as usize,
    }
}

pub fn same_public(a: &PublicInputs, b: &PublicInputs) -> bool {
    a.pc_init == b.pc_init
        && a.ap_init == b.ap_init
        && a.fp_init == b.fp_init
        && a.pc_final == b.pc_final
        && a.ap_final == b.ap_final
        && a.range_check_min == b.range_check_min
        && a.range_check_max == b.range_check_max
        && a.memory_segments == b.memory_segments
        && a.public_memory == b.public_memory
        && a.num_steps == b.num_steps
}

fn nodes(p: &[Path<[u8; 32]>]) -> Vec<&Vec<[u8; 32]>> {
    p.iter().map(|x| &x.merkle_path).collect()
}

pub fn same_query(a: &FriDecommitment<F>, b: &FriDecommitment<F>) -> bool {
    nodes(&a.layers_auth_paths_sym) == nodes(&b.layers_auth_paths_sym)
        && a.layers_evaluations_sym == b.layers_evaluations_sym
        && nodes(&a.layers_auth_paths) == nodes(&b.layers_auth_paths)
        && a.layers_evaluations == b.layers_evaluations
}

pub fn same_opening(a: &DeepPolynomialOpenings<F>, b: &DeepPolynomialOpenings<F>) -> bool {
    a.lde_composition_poly_proof.merkle_path == b.lde_composition_poly_proof.merkle_path
        && a.lde_composition_poly_even_evaluation == b.lde_composition_poly_even_evaluation
        && a.lde_composition_poly_odd_evaluation == b.lde_composition_poly_odd_evaluation
        && nodes(&a.lde_trace_merkle_proofs) == nodes(&b.lde_trace_merkle_proofs)
        && a.lde_trace_evaluations == b.lde_trace_evaluations
}

/// The name of the first component in which two proofs differ (no encoding involved).
pub fn difference(a: &Proof, b: &Proof) -> Option<&'static str> {
    let checks: [(&'static str, bool); 11] = [
        ("trace length", a.trace_length == b.trace_length),
        ("trace roots", a.lde_trace_merkle_roots == b.lde_trace_merkle_roots),
        ("out-of-domain frame", a.trace_ood_frame_evaluations == b.trace_ood_frame_evaluations),
        ("composition root", a.composition_poly_root == b.composition_poly_root),
        ("even out-of-domain value", a.composition_poly_even_ood_evaluation == b.composition_poly_even_ood_evaluation),
        ("odd out-of-domain value", a.composition_poly_odd_ood_evaluation == b.composition_poly_odd_ood_evaluation),
        ("FRI roots", a.fri_layers_merkle_roots == b.fri_layers_merkle_roots),
        ("last value", a.fri_last_value == b.fri_last_value),
        (
            "queries",
            a.query_list.len() == b.query_list.len() && a.query_list.iter().zip(&b.query_list).all(|(x, y)| same_query(x, y)),
        ),
        (
            "openings",
            a.deep_poly_openings.len() == b.deep_poly_openings.len()
                && a.deep_poly_openings.iter().zip(&b.deep_poly_openings).all(|(x, y)| same_opening(x, y)),
        ),
        ("nonce", a.nonce == b.nonce),
    ];
    checks.iter().find(|c| !c.1).map(|c| c.0)
}

/// Damage an encoding: bytes, lengths, cuts, splices.
pub fn damage(src: &mut Src, b: &mut Vec<u8>, other: &[u8]) -> String {
    let n = b.len();
    if n == 0 {
        b.push(src.upto(255) as u8);
        return "one byte".into();
    }
    let at = src.usize(0, n - 1);
    match src.upto(9) {
        0 => {
            b[at] ^= 1 << src.upto(7);
            format!("bit flipped at {at}")
        }
        1 => {
            b[at] = *src.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]);
            format!("byte set at {at}")
        }
        // lengths are 8 byte big endian words
        2..=4 => {
            let small: Vec<usize> = (0..n.saturating_sub(7)).filter(|i| b[*i..i + 5] == [0; 5]).collect();
            let at = if small.is_empty() { at.min(n.saturating_sub(8)) } else { *src.pick(&small) };
            let end = (at + 8).min(n);
            let old = b[at..end].iter().fold(0u64, |v, x| v << 8 | *x as u64);
            let v = match src.upto(5) {
                0 => old.wrapping_add(1),
                1 => old.wrapping_sub(1),
                2 => 0,
                3 => 1u64 << src.upto(63),
                4 => old.wrapping_mul(2),
                _ => src.edgy_u64(),
            };
            let w = v.to_be_bytes();
            b[at..end].copy_from_slice(&w[8 - (end - at)..]);
            format!("length {old} at {at} becomes {v}")
        }
        5 => {
            b.truncate(at);
            format!("cut at {at}")
        }
        6 => {
            let k = src.usize(1, 40).min(n - at);
            b.drain(at..at + k);
            format!("{k} bytes removed at {at}")
        }
        7 => {
            let k = src.usize(1, 40);
            let x = src.bytes(k);
            b.splice(at..at, x);
            format!("{k} bytes inserted at {at}")
        }
        8 if !other.is_empty() => {
            let from = src.usize(0, other.len() - 1);
            b.truncate(at);
            b.extend_from_slice(&other[from..]);
            format!("spliced at {at} with {from} of another")
        }
        _ => {
            let k = src.usize(1, 64).min(n - at);
            let x = src.bytes(k);
            b[at..at + k].copy_from_slice(&x);
            format!("{k} random bytes at {at}")
        }
    }
}

// ---------------------------------------------------------------- shapes that pass for a length

/// What the verifier expects of a proof for 2^log_n rows.
#[derive(Clone, Debug)]
pub struct Shape {
    pub log_n: u32,
    pub log_blowup: u32,
    pub queries: usize,
    pub columns: usize,
    pub trees: usize,
    pub frame_rows: usize,
}

/// A proof with arbitrary contents of exactly that shape.
pub fn shaped(src: &mut Src, s: &Shape) -> Proof {
    let lde = (s.log_n + s.log_blowup) as usize;
    let layers = (s.log_n as usize).max(1);
    let path = |src: &mut Src, n: usize| Path { merkle_path: (0..n).map(|_| arb_node(src)).collect() };
    let values = |src: &mut Src, n: usize| (0..n).map(|_| arb_fe(src)).collect::<Vec<_>>();
    StarkProof {
        trace_length: 1usize << s.log_n,
        lde_trace_merkle_roots: (0..s.trees).map(|_| arb_node(src)).collect(),
        trace_ood_frame_evaluations: Frame::new(values(src, s.frame_rows * s.columns), s.columns),
        composition_poly_root: arb_node(src),
        composition_poly_even_ood_evaluation: arb_fe(src),
        composition_poly_odd_ood_evaluation: arb_fe(src),
        fri_layers_merkle_roots: (0..layers).map(|_| arb_node(src)).collect(),
        fri_last_value: arb_fe(src),
        query_list: (0..s.queries)
            .map(|_| FriDecommitment {
                layers_auth_paths_sym: (0..layers).map(|k| path(src, lde - k)).collect(),
                layers_evaluations_sym: values(src, layers),
                layers_auth_paths: (0..layers).map(|k| path(src, lde - k)).collect(),
                layers_evaluations: values(src, layers),
            })
            .collect(),
        deep_poly_openings: (0..s.queries)
            .map(|_| DeepPolynomialOpenings {
                lde_composition_poly_proof: path(src, lde),
                lde_composition_poly_even_evaluation: arb_fe(src),
                lde_composition_poly_odd_evaluation: arb_fe(src),
                lde_trace_merkle_proofs: (0..s.trees).map(|_| path(src, lde)).collect(),
                lde_trace_evaluations: values(src, s.columns),
            })
            .collect(),
        nonce: src.edgy_u64(),
    }
}
