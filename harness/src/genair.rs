//! Random algebraic constraint systems with a satisfying trace by construction,
//! and a direct row-by-row oracle that decides whether a trace satisfies them.
use crate::{fe, fe_nonzero, short, FE, F};
use engine::Src;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::starks::{
    constraints::boundary::{BoundaryConstraint, BoundaryConstraints},
    context::AirContext,
    frame::Frame,
    proof::options::ProofOptions,
    trace::TraceTable,
    traits::AIR,
    transcript::transcript_to_field,
};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Term {
    pub coef: FE,
    /// (index into the frame offsets, column)
    pub cells: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// sum of terms = 0, main columns only
    Poly(Vec<Term>),
    /// aux[i+1] (b_i + g) = aux[i] (a_i + g); cyclic when not exempt
    Perm { aux: usize, a: usize, b: usize },
    /// aux[i+1] = aux[i] + g c_{i+1}
    Sum { aux: usize, c: usize },
}

#[derive(Clone, Debug)]
pub struct Trans {
    pub kind: Kind,
    pub degree: usize,
    pub exempt: usize,
}

#[derive(Clone, Debug)]
pub struct Bound {
    pub col: usize,
    pub step: usize,
    pub value: FE,
    /// the constrained value is `value + gamma_coef * challenge`
    pub gamma_coef: FE,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub n: usize,
    pub main: usize,
    pub aux: usize,
    pub offsets: Vec<usize>,
    pub trans: Vec<Trans>,
    pub bounds: Vec<Bound>,
    pub bound_factor: usize,
    /// cheat: the prover alters these auxiliary cells (not part of the statement)
    pub aux_cheat: Vec<(usize, usize, FE)>,
}

impl Spec {
    fn offset_index(&self, off: usize) -> usize {
        self.offsets.iter().position(|o| *o == off).expect("offset present")
    }
    pub fn width(&self) -> usize {
        self.main + self.aux
    }
    pub fn max_exempt_gap(&self) -> i64 {
        self.trans.iter().map(|t| t.exempt as i64 - t.degree as i64).max().unwrap_or(0)
    }
    /// Smallest blowup for which the composition polynomial fits the evaluation domain.
    pub fn min_blowup(&self) -> usize {
        let deg = (self.bound_factor * self.n) as i64 + self.max_exempt_gap().max(-2);
        let mut b = 2;
        while ((b * self.n) as i64) <= deg {
            b *= 2;
        }
        b
    }
    pub fn describe(&self) -> String {
        let kinds: Vec<String> = self
            .trans
            .iter()
            .map(|t| {
                let k = match &t.kind {
                    Kind::Poly(ts) => format!(
                        "poly[{}]",
                        ts.iter()
                            .map(|t| format!("{}*{:?}", short(&t.coef), t.cells))
                            .collect::<Vec<_>>()
                            .join(" + ")
                    ),
                    Kind::Perm { aux, a, b } => format!("perm(aux {aux}, {a}~{b})"),
                    Kind::Sum { aux, c } => format!("sum(aux {aux}, {c})"),
                };
                format!("{k} deg {} exempt {}", t.degree, t.exempt)
            })
            .collect();
        let b: Vec<String> =
            self.bounds.iter().map(|b| format!("({},{})={}", b.col, b.step, short(&b.value))).collect();
        format!(
            "n={} main={} aux={} offsets={:?} D={}n trans=[{}] bounds=[{}]",
            self.n, self.main, self.aux, self.offsets, self.bound_factor, kinds.join("; "), b.join(" ")
        )
    }
}

pub type Pub = Arc<Spec>;

#[derive(Clone)]
pub struct GenAir {
    ctx: AirContext,
    n: usize,
    spec: Pub,
}

impl AIR for GenAir {
    type Field = F;
    type RAPChallenges = FE;
    type PublicInputs = Pub;

    fn new(trace_length: usize, pub_inputs: &Pub, proof_options: &ProofOptions) -> Self {
        let s = pub_inputs;
        let mut ex: Vec<usize> = s.trans.iter().map(|t| t.exempt).filter(|e| *e > 0).collect();
        ex.sort();
        ex.dedup();
        GenAir {
            ctx: AirContext {
                proof_options: proof_options.clone(),
                trace_columns: s.width(),
                transition_degrees: s.trans.iter().map(|t| t.degree).collect(),
                transition_offsets: s.offsets.clone(),
                transition_exemptions: s.trans.iter().map(|t| t.exempt).collect(),
                num_transition_constraints: s.trans.len(),
                num_transition_exemptions: ex.len(),
            },
            n: trace_length,
            spec: s.clone(),
        }
    }

    fn build_auxiliary_trace(&self, main: &TraceTable<F>, g: &FE) -> TraceTable<F> {
        if self.spec.aux == 0 {
            return TraceTable::empty();
        }
        let rows: Vec<Vec<FE>> = main.rows();
        let n = rows.len();
        let mut cols = vec![vec![FE::zero(); n]; self.spec.aux];
        for t in &self.spec.trans {
            match &t.kind {
                Kind::Perm { aux, a, b } => {
                    let mut v = FE::one();
                    for i in 0..n {
                        cols[*aux][i] = v.clone();
                        let den = &rows[i][*b] + g;
                        // zero only with negligible probability over the challenge
                        if den != FE::zero() {
                            v = v * (&rows[i][*a] + g) * den.inv();
                        }
                    }
                }
                Kind::Sum { aux, c } => {
                    let mut v = FE::zero();
                    for i in 0..n {
                        v = v + g * &rows[i][*c];
                        cols[*aux][i] = v.clone();
                    }
                }
                _ => {}
            }
        }
        for (row, aux, d) in &self.spec.aux_cheat {
            cols[*aux][*row] = &cols[*aux][*row] + d;
        }
        TraceTable::new_from_cols(&cols)
    }

    fn build_rap_challenges<T: Transcript>(&self, transcript: &mut T) -> FE {
        if self.spec.aux == 0 {
            FE::zero()
        } else {
            transcript_to_field(transcript)
        }
    }

    fn number_auxiliary_rap_columns(&self) -> usize {
        self.spec.aux
    }

    fn composition_poly_degree_bound(&self) -> usize {
        self.spec.bound_factor * self.n
    }

    fn compute_transition(&self, frame: &Frame<F>, g: &FE) -> Vec<FE> {
        let s = &self.spec;
        s.trans
            .iter()
            .map(|t| match &t.kind {
                Kind::Poly(terms) => terms.iter().fold(FE::zero(), |acc, t| {
                    acc + t.cells.iter().fold(t.coef.clone(), |p, (r, c)| p * &frame.get_row(*r)[*c])
                }),
                Kind::Perm { aux, a, b } => {
                    let cur = frame.get_row(s.offset_index(0));
                    let nxt = frame.get_row(s.offset_index(1));
                    let k = s.main + aux;
                    &nxt[k] * (&cur[*b] + g) - &cur[k] * (&cur[*a] + g)
                }
                Kind::Sum { aux, c } => {
                    let cur = frame.get_row(s.offset_index(0));
                    let nxt = frame.get_row(s.offset_index(1));
                    let k = s.main + aux;
                    &nxt[k] - &cur[k] - g * &nxt[*c]
                }
            })
            .collect()
    }

    fn boundary_constraints(&self, g: &FE) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(
            self.spec
                .bounds
                .iter()
                .map(|b| BoundaryConstraint::new(b.col, b.step, &b.value + &b.gamma_coef * g))
                .collect(),
        )
    }

    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &Pub {
        &self.spec
    }
}

/// What the generator may produce.
#[derive(Clone)]
pub struct Cfg {
    pub min_log: usize,
    pub max_log: usize,
    pub max_main: usize,
    pub gaps: bool,
    pub aux: bool,
    /// always as wide as the Cairo machine
    pub wide: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { min_log: 2, max_log: 5, max_main: 5, gaps: true, aux: true, wide: false }
    }
}

pub struct Instance {
    pub spec: Spec,
    /// n rows of `main` cells, satisfying `spec`
    pub rows: Vec<Vec<FE>>,
    kinds: Vec<ColKind>,
    perms: Vec<Option<Vec<usize>>>,
}

impl Instance {
    pub fn table(&self) -> TraceTable<F> {
        table(&self.rows)
    }
    pub fn pubs(&self) -> Pub {
        Arc::new(self.spec.clone())
    }
    pub fn sys(&self) -> crate::sys::Sys<GenAir> {
        crate::sys::Sys {
            kind: "generated",
            desc: self.spec.describe(),
            pubs: self.pubs(),
            table: self.table(),
            min_blowup: self.spec.min_blowup(),
            alter: Some(crate::sys::alter_spec),
        }
    }

    /// Columns whose values are determined by a constraint.
    pub fn constrained_columns(&self) -> Vec<usize> {
        (0..self.spec.main)
            .filter(|j| matches!(self.kinds[*j], ColKind::Alg(..) | ColKind::Rec(..)))
            .collect()
    }

    /// The trace recomputed with one wrong step: `delta` is added to cell (row, col)
    /// when it is computed, and everything that depends on it follows.  The values
    /// of the boundary constraints are moved along, so at most one transition
    /// constraint on one row is violated.
    pub fn fault(&self, row: usize, col: usize, delta: &FE) -> Instance {
        let (n, main) = (self.spec.n, self.spec.main);
        let offsets = &self.spec.offsets;
        let mut rows = self.rows.clone();
        for r in 0..n {
            for j in 0..main {
                let v = match &self.kinds[j] {
                    ColKind::Alg(t, _) => eval_terms(t, |_, c| rows[r][c].clone()),
                    ColKind::Rec(t, _, k) if r >= offsets[*k] => {
                        let base = r - offsets[*k];
                        eval_terms(t, |ri, c| rows[base + offsets[ri]][c].clone())
                    }
                    _ => rows[r][j].clone(),
                };
                rows[r][j] = if (r, j) == (row, col) { v + delta } else { v };
            }
        }
        for j in 0..main {
            if let (ColKind::PermOf(a), Some(idx)) = (&self.kinds[j], &self.perms[j]) {
                for r in 0..n {
                    rows[r][j] = rows[idx[r]][*a].clone();
                }
            }
        }
        let mut spec = self.spec.clone();
        for b in spec.bounds.iter_mut() {
            if b.col < main {
                b.value = rows[b.step][b.col].clone();
            } else if b.gamma_coef != FE::zero() || b.value == FE::zero() {
                // a running sum
                for t in &spec.trans {
                    if let Kind::Sum { aux, c } = &t.kind {
                        if main + aux == b.col {
                            b.gamma_coef = if b.step == 0 {
                                rows[0][*c].clone()
                            } else {
                                rows.iter().fold(FE::zero(), |acc, r| acc + &r[*c])
                            };
                        }
                    }
                }
            }
        }
        Instance { spec, rows, kinds: self.kinds.clone(), perms: self.perms.clone() }
    }
}

pub fn table(rows: &[Vec<FE>]) -> TraceTable<F> {
    TraceTable::new(rows.concat(), rows[0].len())
}

#[derive(Clone)]
enum ColKind {
    Free,
    Alg(Vec<Term>, usize),
    Rec(Vec<Term>, usize, usize),
    PermOf(usize),
}

fn terms(src: &mut Src, degree: usize, avail: &[(usize, usize)]) -> Vec<Term> {
    let k = src.usize(1, 3);
    let mut out: Vec<Term> = (0..k)
        .map(|i| {
            let d = if i == 0 { degree } else { src.usize(0, degree) };
            let cells = if avail.is_empty() { vec![] } else { (0..d).map(|_| *src.pick(avail)).collect() };
            Term { coef: fe_nonzero(src), cells }
        })
        .collect();
    if out.is_empty() {
        out.push(Term { coef: FE::one(), cells: vec![] });
    }
    out
}

fn eval_terms(terms: &[Term], at: impl Fn(usize, usize) -> FE) -> FE {
    terms.iter().fold(FE::zero(), |acc, t| acc + t.cells.iter().fold(t.coef.clone(), |p, (r, c)| p * at(*r, *c)))
}

pub fn gen(src: &mut Src, cfg: &Cfg) -> Instance {
    let mut n = 1usize << src.usize(cfg.min_log, cfg.max_log);
    // now and then a system as wide as the Cairo machine, over a short trace
    let wide = cfg.wide || cfg.max_main >= 5 && cfg.min_log <= 3 && src.chance(1, 50);
    if wide {
        n = n.min(8);
    }
    let offsets: Vec<usize> = match src.upto(if cfg.gaps { 5 } else { 2 }) {
        0 | 1 => vec![0, 1],
        2 => vec![0, 1, 2],
        3 => vec![0, 2],
        4 => vec![0, 1, 3],
        _ => vec![0],
    };
    let offsets: Vec<usize> = offsets.into_iter().filter(|o| *o < n).collect();
    let main = if wide { src.usize(20, 90) } else { src.usize(1, cfg.max_main) };
    let bound_factor = if src.chance(1, 2) { 2 } else { 1 };
    let max_degree = bound_factor + 1;
    let mut kinds: Vec<ColKind> = Vec::new();
    let mut refable: Vec<usize> = Vec::new();
    for j in 0..main {
        let choice = src.weighted(&[2, 3, 5, if cfg.aux && offsets.contains(&1) && !refable.is_empty() { 2 } else { 0 }]);
        let k = match choice {
            0 => ColKind::Free,
            1 => {
                let d = src.usize(1, max_degree);
                let avail: Vec<(usize, usize)> = refable.iter().map(|c| (0, *c)).collect();
                ColKind::Alg(terms(src, d, &avail), d)
            }
            2 if offsets.len() > 1 => {
                let k = src.usize(1, offsets.len() - 1);
                let d = src.usize(1, max_degree);
                let mut avail: Vec<(usize, usize)> = Vec::new();
                for r in 0..k {
                    avail.extend(refable.iter().map(|c| (r, *c)));
                    avail.push((r, j));
                }
                avail.extend(refable.iter().map(|c| (k, *c)));
                ColKind::Rec(terms(src, d, &avail), d, k)
            }
            3 => ColKind::PermOf(*src.pick(&refable)),
            _ => ColKind::Free,
        };
        if !matches!(k, ColKind::PermOf(_)) {
            refable.push(j);
        }
        kinds.push(k);
    }

    // the trace, row by row, columns in order
    let mut rows = vec![vec![FE::zero(); main]; n];
    for r in 0..n {
        for j in 0..main {
            let v = match &kinds[j] {
                ColKind::Free => fe(src),
                ColKind::Alg(t, _) => eval_terms(t, |_, c| rows[r][c].clone()),
                ColKind::Rec(t, _, k) if r >= offsets[*k] => {
                    let base = r - offsets[*k];
                    eval_terms(t, |ri, c| rows[base + offsets[ri]][c].clone())
                }
                ColKind::Rec(..) => fe(src),
                ColKind::PermOf(_) => FE::zero(),
            };
            rows[r][j] = v;
        }
    }
    let mut perms: Vec<Option<Vec<usize>>> = vec![None; main];
    for j in 0..main {
        if let ColKind::PermOf(a) = kinds[j] {
            let mut idx: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                let k = src.usize(0, i);
                idx.swap(i, k);
            }
            for r in 0..n {
                rows[r][j] = rows[idx[r]][a].clone();
            }
            perms[j] = Some(idx);
        }
    }

    // constraints
    let mut trans: Vec<Trans> = Vec::new();
    let mut bounds: Vec<Bound> = Vec::new();
    let mut aux = 0;
    let push = |trans: &mut Vec<Trans>, kind: Kind, mut degree: usize, min_exempt: usize, extra: usize| {
        let exempt = (min_exempt + extra).min(n - 1);
        if bound_factor == 2 {
            // the composition polynomial must stay within what FRI can test
            while exempt > degree + 1 && degree < 3 {
                degree += 1;
            }
            let exempt = exempt.min(degree + 1).max(min_exempt);
            trans.push(Trans { kind, degree, exempt });
        } else {
            trans.push(Trans { kind, degree, exempt });
        }
    };
    for j in 0..main {
        match &kinds[j] {
            ColKind::Free => {}
            ColKind::Alg(t, d) => {
                let mut ts = t.clone();
                ts.push(Term { coef: FE::zero() - FE::one(), cells: vec![(0, j)] });
                let extra = if src.chance(1, 4) { src.usize(1, 2) } else { 0 };
                push(&mut trans, Kind::Poly(ts), (*d).max(1), 0, extra);
            }
            ColKind::Rec(t, d, k) => {
                let mut ts = t.clone();
                ts.push(Term { coef: FE::zero() - FE::one(), cells: vec![(*k, j)] });
                let extra = if src.chance(1, 4) { src.usize(1, 2) } else { 0 };
                push(&mut trans, Kind::Poly(ts), (*d).max(1), offsets[*k], extra);
            }
            ColKind::PermOf(a) => {
                // the challenge must not be tied to the trace: a multiset check
                push(&mut trans, Kind::Perm { aux, a: *a, b: j }, 2, 0, 0);
                bounds.push(Bound { col: main + aux, step: 0, value: FE::one(), gamma_coef: FE::zero() });
                aux += 1;
            }
        }
    }
    if cfg.aux && aux < 2 && offsets.contains(&1) && src.chance(1, 4) {
        let c = src.usize(0, main - 1);
        let sum = rows.iter().fold(FE::zero(), |acc, r| acc + &r[c]);
        push(&mut trans, Kind::Sum { aux, c }, 1, 1, 0);
        bounds.push(Bound { col: main + aux, step: 0, value: FE::zero(), gamma_coef: rows[0][c].clone() });
        bounds.push(Bound { col: main + aux, step: n - 1, value: FE::zero(), gamma_coef: sum });
        aux += 1;
    }
    if trans.is_empty() {
        // at least one constraint: column 0 minus itself shifted by nothing (trivial but declared)
        let v = rows[0][0].clone();
        for r in rows.iter_mut() {
            r[0] = v.clone();
        }
        trans.push(Trans {
            kind: Kind::Poly(vec![
                Term { coef: FE::one(), cells: vec![(0, 0)] },
                Term { coef: FE::zero() - &v, cells: vec![] },
            ]),
            degree: 1,
            exempt: 0,
        });
    }
    // shuffle the order of the constraints
    for i in (1..trans.len()).rev() {
        let k = src.usize(0, i);
        trans.swap(i, k);
    }
    let nb = src.usize(1, if wide { 40 } else { 4 });
    for _ in 0..nb {
        let col = src.usize(0, main - 1);
        let step = match src.upto(3) {
            0 => 0,
            1 => n - 1,
            _ => src.usize(0, n - 1),
        };
        bounds.push(Bound { col, step, value: rows[step][col].clone(), gamma_coef: FE::zero() });
    }
    for i in (1..bounds.len()).rev() {
        let k = src.usize(0, i);
        bounds.swap(i, k);
    }
    let mut spec = Spec { n, main, aux, offsets, trans, bounds, bound_factor, aux_cheat: vec![] };
    // the rows of a frame come in the order of the offsets, whatever that is
    if spec.offsets.len() > 2 && src.chance(1, 3) {
        spec.offsets.swap(1, 2);
        let of = |k: usize| [0, 2, 1][k];
        let turn = |ts: &mut Vec<Term>| {
            for c in ts.iter_mut().flat_map(|t| t.cells.iter_mut()) {
                c.0 = of(c.0);
            }
        };
        for t in spec.trans.iter_mut() {
            if let Kind::Poly(ts) = &mut t.kind {
                turn(ts);
            }
        }
        for k in kinds.iter_mut() {
            match k {
                ColKind::Alg(ts, _) => turn(ts),
                ColKind::Rec(ts, _, r) => {
                    turn(ts);
                    *r = of(*r);
                }
                _ => {}
            }
        }
    }
    Instance { spec, rows, kinds, perms }
}

/// Systems at the far end of each size: long traces, many columns and constraints, or steps
/// that reach far ahead.
pub fn large(src: &mut Src, max_log: usize) -> Instance {
    match src.upto(5) {
        0 | 1 => gen(src, &Cfg { min_log: 6, max_log, max_main: 3, ..Cfg::default() }),
        2 => gen(src, &Cfg { min_log: 1, max_log: 3, wide: true, ..Cfg::default() }),
        3 => {
            let (log, width) = (src.usize(1, 3), src.usize(60, 300));
            parallel(src, log, width)
        }
        _ => {
            let log = src.usize(3, max_log.min(8));
            let (width, gap) = (src.usize(1, 4), src.usize(1, 1 << (log - 1)));
            ahead(src, log, width, gap)
        }
    }
}

/// Many columns that each count up by their own constant, under one constraint and one
/// boundary value per column: `next = cell + k`.
pub fn parallel(src: &mut Src, log: usize, width: usize) -> Instance {
    ahead(src, log, width, 1)
}

/// The same, where a step leads from a row to the one `gap` rows further.
pub fn ahead(src: &mut Src, log: usize, width: usize, gap: usize) -> Instance {
    let n = 1usize << log;
    let exempt = if src.chance(1, 4) { (gap + 1).min(n) } else { gap };
    let minus = -FE::one();
    let mut trans = Vec::new();
    let mut bounds = Vec::new();
    let mut rows = vec![vec![FE::zero(); width]; n];
    let step = if src.bool() { 0 } else { src.usize(0, n - 1) };
    for j in 0..width {
        let (a, k) = (FE::from(src.upto(1000)), FE::from(src.range(1, 1000)));
        for (i, r) in rows.iter_mut().enumerate() {
            r[j] = &a + &k * FE::from(i as u64);
        }
        trans.push(Trans {
            kind: Kind::Poly(vec![
                Term { coef: FE::one(), cells: vec![(1, j)] },
                Term { coef: minus.clone(), cells: vec![(0, j)] },
                Term { coef: -(&k * FE::from(gap as u64)), cells: vec![] },
            ]),
            degree: 1,
            exempt,
        });
        bounds.push(Bound { col: j, step, value: rows[step][j].clone(), gamma_coef: FE::zero() });
    }
    let spec = Spec { n, main: width, aux: 0, offsets: vec![0, gap], trans, bounds, bound_factor: 1, aux_cheat: vec![] };
    let kinds = (0..width).map(|_| ColKind::Free).collect();
    Instance { spec, rows, kinds, perms: vec![None; width] }
}

/// Direct evaluation: which constraints does this main trace violate?
pub fn violations(spec: &Spec, rows: &[Vec<FE>]) -> Vec<String> {
    let n = spec.n;
    let mut out = Vec::new();
    for (ti, t) in spec.trans.iter().enumerate() {
        match &t.kind {
            Kind::Poly(ts) => {
                for i in 0..n - t.exempt {
                    let v = eval_terms(ts, |r, c| rows[(i + spec.offsets[r]) % n][c].clone());
                    if v != FE::zero() {
                        out.push(format!("transition {ti} row {i}"));
                        break;
                    }
                }
            }
            Kind::Perm { a, b, .. } => {
                if t.exempt == 0 {
                    let key = |v: &FE| v.to_string();
                    let mut x: Vec<String> = rows.iter().map(|r| key(&r[*a])).collect();
                    let mut y: Vec<String> = rows.iter().map(|r| key(&r[*b])).collect();
                    x.sort();
                    y.sort();
                    if x != y {
                        out.push(format!("transition {ti} (multiset)"));
                    }
                }
            }
            Kind::Sum { aux, c } => {
                let sum = rows.iter().fold(FE::zero(), |acc, r| acc + &r[*c]);
                for b in &spec.bounds {
                    if b.col == spec.main + aux {
                        let want = if b.step == 0 { rows[0][*c].clone() } else { sum.clone() };
                        if b.gamma_coef != want || b.value != FE::zero() {
                            out.push(format!("boundary on sum column step {}", b.step));
                        }
                    }
                }
            }
        }
    }
    for b in &spec.bounds {
        if b.col < spec.main && rows[b.step][b.col] != b.value {
            out.push(format!("boundary ({},{})", b.col, b.step));
        }
    }
    if !spec.aux_cheat.is_empty() {
        out.push("auxiliary cell altered".into());
    }
    out
}

/// Another statement: one detail of the system changed. Shapes stay the same.
pub fn alter(src: &mut Src, spec: &Spec) -> (Spec, String) {
    let mut s = spec.clone();
    let polys: Vec<usize> = (0..s.trans.len()).filter(|i| matches!(s.trans[*i].kind, Kind::Poly(_))).collect();
    let mains: Vec<usize> = (0..s.bounds.len()).filter(|i| s.bounds[*i].col < s.main).collect();
    match src.upto(if polys.is_empty() { 3 } else { 6 }) {
        0 | 1 => {
            let i = src.usize(0, s.bounds.len() - 1);
            let old = s.bounds[i].value.clone();
            s.bounds[i].value = crate::fe_other(src, &old);
            (s, format!("value of boundary constraint {i}"))
        }
        2 => {
            let i = *src.pick(&mains);
            s.bounds[i].step = if s.n > 1 && src.bool() {
                s.bounds[i].step ^ 1 << src.usize(0, s.n.ilog2() as usize - 1)
            } else {
                (s.bounds[i].step + src.usize(1, (s.n - 1).max(1))) % s.n
            };
            (s, format!("step of boundary constraint {i}"))
        }
        3 => {
            let i = *src.pick(&mains);
            s.bounds[i].col = (s.bounds[i].col + src.usize(1, s.main)) % s.main;
            (s, format!("column of boundary constraint {i}"))
        }
        4 | 5 => {
            let i = *src.pick(&polys);
            if let Kind::Poly(ts) = &mut s.trans[i].kind {
                let k = src.usize(0, ts.len() - 1);
                ts[k].coef = crate::fe_other(src, &ts[k].coef.clone());
            }
            (s, format!("coefficient of transition constraint {i}"))
        }
        _ => {
            let i = *src.pick(&polys);
            let (main, rows) = (s.main, s.offsets.len());
            if let Kind::Poly(ts) = &mut s.trans[i].kind {
                let k = src.usize(0, ts.len() - 1);
                if ts[k].cells.is_empty() {
                    ts[k].coef = &ts[k].coef + FE::one();
                } else {
                    let m = src.usize(0, ts[k].cells.len() - 1);
                    ts[k].cells[m] = (src.usize(0, rows - 1), src.usize(0, main - 1));
                }
            }
            (s, format!("cell of transition constraint {i}"))
        }
    }
}
