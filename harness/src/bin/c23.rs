//! C23: boundary constraints and zerofiers describe exactly the constrained cells.
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use std::collections::{BTreeMap, BTreeSet};
use vh::*;

/// Any exemptions, nothing else: the default methods of the trait are what is checked.
#[derive(Clone)]
struct Tiny {
    ctx: AirContext,
    n: usize,
}

impl AIR for Tiny {
    type Field = F;
    type RAPChallenges = ();
    type PublicInputs = Vec<usize>;
    fn new(n: usize, ex: &Vec<usize>, o: &ProofOptions) -> Self {
        let distinct: BTreeSet<usize> = ex.iter().copied().filter(|e| *e > 0).collect();
        let ctx = AirContext {
            proof_options: o.clone(),
            trace_columns: 1,
            transition_degrees: vec![1; ex.len()],
            transition_offsets: vec![0, 1],
            transition_exemptions: ex.clone(),
            num_transition_constraints: ex.len(),
            num_transition_exemptions: distinct.len(),
        };
        Tiny { ctx, n }
    }
    fn build_auxiliary_trace(&self, _: &TraceTable<F>, _: &()) -> TraceTable<F> {
        TraceTable::empty()
    }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn number_auxiliary_rap_columns(&self) -> usize {
        0
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.n
    }
    fn compute_transition(&self, _: &Frame<F>, _: &()) -> Vec<FE> {
        vec![FE::zero(); self.ctx.num_transition_constraints]
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(vec![])
    }
    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &Vec<usize> {
        &self.ctx.transition_exemptions
    }
}

fn eval(p: &Polynomial<FE>, x: &FE) -> FE {
    p.coefficients().iter().rev().fold(FE::zero(), |a, c| a * x + c)
}

fn degree(p: &Polynomial<FE>) -> usize {
    p.coefficients().iter().rposition(|c| *c != FE::zero()).unwrap_or(0)
}

fn log_n(src: &mut Src) -> u32 {
    match src.upto(9) {
        0 => src.upto(1) as u32,
        1 => src.range(7, 9) as u32,
        _ => src.range(1, 6) as u32,
    }
}

fn main() {
    let mut c = Check::new("C23", "a case counts when a column has at least two constrained rows or two different exemptions exist");

    c.run("boundary constraints", c.n(40_000, 800_000), |src, ctx| {
        let log = log_n(src);
        let n = 1usize << log;
        let cols = src.usize(1, 8);
        let mut cells: BTreeMap<(usize, usize), FE> = BTreeMap::new();
        let mut list: Vec<(usize, usize, FE)> = Vec::new();
        // now and then every cell, or none
        let m = match src.upto(9) {
            0 => 0,
            1 => n.min(64) * cols,
            _ => src.usize(1, 12),
        };
        for k in 0..m {
            let (col, step) = if m == n * cols { (k % cols, k / cols) } else { (src.usize(0, cols - 1) * src.usize(1, 3), src.usize(0, n - 1)) };
            if cells.contains_key(&(col, step)) {
                continue;
            }
            let v = fe(src);
            cells.insert((col, step), v.clone());
            list.push((col, step, v));
        }
        for k in (1..list.len()).rev() {
            let j = src.usize(0, k);
            list.swap(k, j);
        }
        let d = format!("n {n}: {}", list.iter().take(12).map(|(c, s, v)| format!("({c},{s})={}", short(v))).collect::<Vec<_>>().join(" "));
        ctx.sample(d.clone());
        let bc: BoundaryConstraints<F> = BoundaryConstraints::from_constraints(
            list.iter()
                .map(|(c, s, v)| if *c == 0 && s % 2 == 0 { BoundaryConstraint::new_simple(*s, v.clone()) } else { BoundaryConstraint::new(*c, *s, v.clone()) })
                .collect(),
        );
        ensure!(bc.constraints.len() == list.len(), "count", "{} constraints: {d}", bc.constraints.len());
        for (g, w) in bc.constraints.iter().zip(&list) {
            ensure!((g.col, g.step, &g.value) == (w.0, w.1, &w.2), "recorded", "({},{}) recorded as ({},{}): {d}", w.0, w.1, g.col, g.step);
        }
        let as_set = |v: Vec<usize>| -> (usize, BTreeSet<usize>) { (v.len(), v.into_iter().collect()) };
        let (k, steps) = as_set(bc.steps_for_boundary());
        ensure!(k == steps.len() && steps == list.iter().map(|x| x.1).collect(), "steps-for-boundary", "{steps:?}: {d}");
        let (k, columns) = as_set(bc.cols_for_boundary());
        ensure!(k == columns.len() && columns == list.iter().map(|x| x.0).collect(), "cols-for-boundary", "{columns:?}: {d}");

        let g = F::get_primitive_root_of_unity(log as u64).unwrap();
        let mut points = vec![FE::one()];
        for k in 1..n {
            points.push(&points[k - 1] * &g);
        }
        let asked: Vec<usize> = (0..3 * cols).filter(|_| src.upto(3) > 0).collect();
        let roots = bc.generate_roots_of_unity(&g, &asked);
        let values = bc.values(&asked);
        ensure!(roots.len() == asked.len() && values.len() == asked.len(), "per-column", "{} and {} for {} columns: {d}", roots.len(), values.len(), asked.len());
        for (k, col) in asked.iter().enumerate() {
            let want: BTreeMap<usize, FE> = list.iter().filter(|x| x.0 == *col).map(|x| (x.1, x.2.clone())).collect();
            let st = bc.steps(*col);
            ensure!(st.len() == want.len() && st.iter().all(|s| want.contains_key(s)), "steps", "column {col}: {st:?}: {d}");
            ensure!(roots[k].len() == st.len() && values[k].len() == st.len(), "per-step", "column {col}: {d}");
            for (i, s) in st.iter().enumerate() {
                ensure!(roots[k][i] == points[*s], "roots", "column {col} step {s}: {d}");
                ensure!(values[k][i] == want[s], "values", "column {col} step {s} is {}: {d}", short(&values[k][i]));
            }
            let z = match guard(|| bc.compute_zerofier(&g, *col)) {
                Ok(z) => z,
                Err(m) => return fail("zerofier-crash", format!("column {col}: {m}: {d}")),
            };
            for (r, x) in points.iter().enumerate() {
                ensure!((eval(&z, x) == FE::zero()) == want.contains_key(&r), "zerofier", "column {col} row {r}: {d}");
            }
            // nothing but the constrained rows: same value as the product anywhere
            let x = fe_uniform(src);
            let product = want.keys().fold(FE::one(), |a, s| a * (&x - &points[*s]));
            ensure!(eval(&z, &x) == product, "zerofier-value", "column {col}: {d}");
            if want.len() >= 2 {
                ctx.nontrivial(format!("{d} {col}").as_bytes());
            }
        }
        Ok(())
    });

    c.run("exemptions", c.n(40_000, 800_000), |src, ctx| {
        let log = log_n(src);
        let n = 1usize << log;
        let m = src.usize(1, 12);
        let kinds = src.usize(1, 4);
        let choice: Vec<usize> = (0..kinds).map(|_| if src.bool() { src.usize(0, 3.min(n)) } else { src.usize(0, n.min(32)) }).collect();
        let ex: Vec<usize> = (0..m).map(|_| *src.pick(&choice)).collect();
        let opts = ProofOptions { blowup_factor: 2, fri_number_of_queries: 1, coset_offset: 3, grinding_factor: 0 };
        let air = Tiny::new(n, &ex, &opts);
        let d = format!("n {n} exemptions {ex:?}");
        ctx.sample(d.clone());
        let mut distinct: Vec<usize> = Vec::new();
        for e in &ex {
            if *e > 0 && !distinct.contains(e) {
                distinct.push(*e);
            }
        }
        let g = F::get_primitive_root_of_unity(log as u64).unwrap();
        let mut points = vec![FE::one()];
        for k in 1..n {
            points.push(&points[k - 1] * &g);
        }
        let prover = match guard(|| air.transition_exemptions()) {
            Ok(p) => p,
            Err(m) => return fail("prover-crash", format!("{m}: {d}")),
        };
        let verifier = match guard(|| air.transition_exemptions_verifier(&g.inv())) {
            Ok(p) => p,
            Err(m) => return fail("verifier-crash", format!("{m}: {d}")),
        };
        // the verifier's list is indexed by size; how the prover's is indexed shows end to end
        ensure!(prover.len() == distinct.len(), "prover-count", "{} polynomials: {d}", prover.len());
        ensure!(verifier.len() >= distinct.iter().copied().max().unwrap_or(0), "verifier-count", "{} polynomials: {d}", verifier.len());
        let x = fe_uniform(src);
        for e in &distinct {
            let v = &verifier[e - 1];
            let p = match prover.iter().find(|p| degree(p) == *e) {
                Some(p) => p,
                None => return fail("prover-missing", format!("nothing of degree {e}: {d}")),
            };
            ensure!(degree(p) == *e && degree(v) == *e, "degree", "{} and {} for {e}: {d}", degree(p), degree(v));
            for (r, at) in points.iter().enumerate() {
                let exempt = r >= n - e;
                ensure!((eval(p, at) == FE::zero()) == exempt, "prover-rows", "exemption {e}, row {r}: {d}");
                ensure!((eval(v, at) == FE::zero()) == exempt, "verifier-rows", "exemption {e}, row {r}: {d}");
            }
            ensure!(eval(p, &x) == eval(v, &x), "agreement", "exemption {e}: {d}");
            ensure!(p.evaluate(&x) == eval(p, &x), "evaluation", "exemption {e}: {d}");
        }
        if distinct.len() >= 2 {
            ctx.nontrivial(d.as_bytes());
        }
        Ok(())
    });

    // traces far longer than any that can be built here
    c.run("long traces", c.n(6000, 100_000), |src, ctx| {
        let log = src.range(9, 40) as u32;
        let n = 1usize << log;
        let m = src.usize(1, 6);
        let step = |src: &mut Src| match src.upto(3) {
            0 => n - 1 - src.usize(0, 300),
            1 => (1usize << src.usize(0, log as usize - 1)) + src.usize(0, 2),
            _ => src.usize(0, n - 1),
        };
        let mut steps: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..m {
            let s = step(src);
            steps.insert(s);
            // alike in their low bits
            if src.bool() {
                steps.insert(s ^ 1 << src.usize(8, log as usize - 1));
            }
        }
        let col = match src.upto(2) {
            0 => src.usize(0, 300),
            1 => src.edgy_u64() as usize,
            _ => 0,
        };
        let mut list: Vec<(usize, usize, FE)> = steps.iter().map(|s| (col, *s, fe(src))).collect();
        // another column, alike in its low bits
        let other = col ^ 1 << src.upto(63);
        let away = step(src);
        list.push((other, away, fe(src)));
        for k in (1..list.len()).rev() {
            list.swap(k, src.usize(0, k));
        }
        let d = format!("n 2^{log}: {}", list.iter().map(|(c, s, _)| format!("({c},{s})")).collect::<Vec<_>>().join(" "));
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        let bc: BoundaryConstraints<F> = BoundaryConstraints::from_constraints(list.iter().map(|(c, s, v)| BoundaryConstraint::new(*c, *s, v.clone())).collect());
        let mut all: BTreeSet<usize> = steps.clone();
        all.insert(away);
        let (got, cols) = (bc.steps_for_boundary(), bc.cols_for_boundary());
        ensure!(got.len() == all.len() && got.iter().all(|s| all.contains(s)), "steps-for-boundary", "{got:?}: {d}");
        ensure!(cols.len() == 2 && cols.contains(&col) && cols.contains(&other), "cols-for-boundary", "{cols:?}: {d}");
        let g = F::get_primitive_root_of_unity(log as u64).unwrap();
        let at = |s: usize| (0..64).rev().fold(FE::one(), |a, k| if s >> k & 1 == 1 { a.square() * &g } else { a.square() });
        let st = bc.steps(col);
        let want: Vec<&(usize, usize, FE)> = list.iter().filter(|x| x.0 == col).collect();
        ensure!(st.len() == want.len() && st.iter().all(|s| steps.contains(s)), "steps", "{st:?}: {d}");
        let (roots, values) = (bc.generate_roots_of_unity(&g, &[col]), bc.values(&[col]));
        ensure!(roots.len() == 1 && values.len() == 1 && roots[0].len() == st.len() && values[0].len() == st.len(), "per-column", "{d}");
        for (i, s) in st.iter().enumerate() {
            ensure!(roots[0][i] == at(*s), "roots", "step {s}: {d}");
            ensure!(want.iter().any(|w| w.1 == *s && w.2 == values[0][i]), "values", "step {s}: {d}");
        }
        let z = bc.compute_zerofier(&g, col);
        let x = fe_uniform(src);
        let product = steps.iter().fold(FE::one(), |a, s| a * (&x - at(*s)));
        ensure!(eval(&z, &x) == product, "zerofier-value", "{d}");
        // exemptions at the end of such a trace
        let ex: Vec<usize> = (0..src.usize(1, 4)).map(|_| src.usize(0, 40)).collect();
        let opts = ProofOptions { blowup_factor: 2, fri_number_of_queries: 1, coset_offset: 3, grinding_factor: 0 };
        let air = Tiny::new(n, &ex, &opts);
        let d = format!("n 2^{log} exemptions {ex:?}");
        // the prover lists every power of the root
        let prover = if log <= 17 && src.chance(1, 60) {
            match guard(|| air.transition_exemptions()) {
                Ok(p) => Some(p),
                Err(m) => return fail("prover-crash", format!("{m}: {d}")),
            }
        } else {
            None
        };
        let verifier = match guard(|| air.transition_exemptions_verifier(&g.inv())) {
            Ok(p) => p,
            Err(m) => return fail("verifier-crash", format!("{m}: {d}")),
        };
        for e in ex.iter().filter(|e| **e > 0) {
            let product = (1..=*e).fold(FE::one(), |a, k| a * (&x - at(n - k)));
            ensure!(verifier.get(e - 1).is_some_and(|p| eval(p, &x) == product), "verifier-rows", "exemption {e}: {d}");
            ensure!(prover.as_ref().is_none_or(|p| p.iter().any(|p| eval(p, &x) == product)), "prover-rows", "exemption {e}: {d}");
        }
        Ok(())
    });

    // several exemptions and several boundary cells per column at once, through prover and verifier
    c.run("systems with several exemptions", c.n(3000, 50_000), |src, ctx| {
        let s = sys::generated(src, &genair::Cfg { min_log: 2, max_log: 5, max_main: 8, ..Default::default() });
        let opts = sys::options_for(src, &s, 0);
        let distinct: BTreeSet<usize> = sys::System::context(&s, &opts).transition_exemptions.iter().copied().filter(|e| *e > 0).collect();
        if distinct.len() < 2 {
            return Ok(());
        }
        let d = format!("{} under {opts:?}", sys::System::describe(&s));
        ctx.sample(d.clone());
        ctx.nontrivial(d.as_bytes());
        let p = match sys::System::prove(&s, &opts) {
            Ok(Some(p)) => p,
            r => return fail("system-prove", format!("{:?}: {d}", r.err())),
        };
        ensure!(sys::System::verify(&s, &p, &opts) == Ok(true), "system-verify", "{d}");
        Ok(())
    });
    c.finish()
}
