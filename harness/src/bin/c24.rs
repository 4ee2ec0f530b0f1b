//! C24: trace tables, frames and low-degree extensions preserve the data.
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::prover::evaluate_polynomial_on_lde_domain;
use lambdaworks_stark::starks::trace::TraceTable;
use vh::*;

type Cells = Vec<Vec<FE>>;

fn cells(src: &mut Src, n: usize, w: usize) -> Cells {
    // columns of different kinds: constant, sparse, arbitrary
    let kinds: Vec<u64> = (0..w).map(|_| src.upto(5)).collect();
    let base: Vec<FE> = (0..w).map(|_| fe(src)).collect();
    (0..n)
        .map(|_| {
            (0..w)
                .map(|c| match kinds[c] {
                    0 => base[c].clone(),
                    1 => FE::from(src.upto(1)),
                    2 => FE::zero(),
                    _ => fe(src),
                })
                .collect()
        })
        .collect()
}

fn same(t: &TraceTable<F>, want: &Cells, w: usize, d: &str) -> Res {
    ensure!(t.n_cols == w, "width", "{} columns: {d}", t.n_cols);
    ensure!(t.n_rows() == want.len(), "height", "{} rows: {d}", t.n_rows());
    ensure!(t.is_empty() == (w == 0), "is-empty", "{d}");
    ensure!(&t.rows() == want, "rows", "{d}");
    let cols = t.cols();
    ensure!(cols.len() == w, "cols", "{} columns: {d}", cols.len());
    for (r, row) in want.iter().enumerate() {
        ensure!(t.get_row(r) == &row[..], "get-row", "row {r}: {d}");
        for (c, v) in row.iter().enumerate() {
            ensure!(&cols[c][r] == v, "cols", "cell {r},{c}: {d}");
            ensure!(&t.get(r, c) == v, "get", "cell {r},{c}: {d}");
        }
    }
    ensure!(cols.iter().all(|c| c.len() == want.len()), "cols", "{d}");
    if let Some(last) = want.last() {
        ensure!(t.last_row() == &last[..], "last-row", "{d}");
    }
    Ok(())
}

fn eval(p: &Polynomial<FE>, x: &FE) -> FE {
    p.coefficients().iter().rev().fold(FE::zero(), |a, c| a * x + c)
}

fn degree_below(p: &Polynomial<FE>, n: usize) -> bool {
    p.coefficients().iter().rposition(|c| *c != FE::zero()).is_none_or(|d| d < n)
}

fn main() {
    let mut c = Check::new("C24", "a case counts when the table has at least two rows and two columns");

    let tables = |src: &mut Src, ctx: &mut Ctx, n: usize, w: usize| {
        let want = cells(src, n, w);
        let d = format!("{n} rows, {w} columns");
        ctx.sample(d.clone());
        let flat: Vec<FE> = want.iter().flatten().cloned().collect();
        let by_cols: Vec<Vec<FE>> = (0..w).map(|c| want.iter().map(|r| r[c].clone()).collect()).collect();
        let t = TraceTable::new(flat, w);
        let u = TraceTable::new_from_cols(&by_cols);
        same(&t, &want, w, &d)?;
        same(&u, &want, w, &format!("from columns: {d}"))?;
        ensure!(t == u, "equality", "{d}");

        // selection, in any order and with repetition
        let pick: Vec<usize> = (0..src.usize(0, 2 * w)).map(|_| src.usize(0, w - 1)).collect();
        let sub = t.get_cols(&pick);
        let sub_want: Cells = want.iter().map(|r| pick.iter().map(|c| r[*c].clone()).collect()).collect();
        if pick.is_empty() {
            ensure!(sub == TraceTable::empty() && sub.n_rows() == 0, "empty-selection", "{d}");
        } else {
            same(&sub, &sub_want, pick.len(), &format!("columns {pick:?}: {d}"))?;
        }

        // appended columns
        let v = if src.chance(1, 50) { src.usize(250, 600).min(40_000 / n) } else { src.usize(0, 5) };
        let more = cells(src, n, v);
        let joined = t.concatenate(more.iter().flatten().cloned().collect(), v);
        let both: Cells = want.iter().zip(&more).map(|(a, b)| a.iter().chain(b).cloned().collect()).collect();
        same(&joined, &both, w + v, &format!("with {v} columns: {d}"))?;
        let back = joined.get_cols(&(0..w).collect::<Vec<_>>());
        ensure!(back == t, "concatenate-select", "{d}");

        // frames
        for _ in 0..6 {
            let step = src.usize(0, n - 1);
            let blowup = *src.pick(&[1u8, 1, 2, 4, 8, 16, 64, 128, 255]);
            let count = if src.chance(1, 8) { src.usize(6, 40) } else { src.usize(1, 5) };
            let offsets: Vec<usize> = (0..count).map(|_| if src.upto(4) == 0 { src.usize(0, 3 * n) } else { src.usize(0, 3) }).collect();
            let mut f = Frame::read_from_trace(&t, step, blowup, &offsets);
            let fd = format!("step {step} blowup {blowup} offsets {offsets:?}: {d}");
            ensure!(f.num_rows() == offsets.len() && f.num_columns() == w, "frame-shape", "{} x {}: {fd}", f.num_rows(), f.num_columns());
            for (k, o) in offsets.iter().enumerate() {
                ensure!(f.get_row(k) == &want[(step + o * blowup as usize) % n][..], "frame-row", "row {k}: {fd}");
            }
            // writing one cell changes that cell only
            let (r, col) = (src.usize(0, offsets.len() - 1), src.usize(0, w - 1));
            let v = fe_other(src, &f.get_row(r)[col].clone());
            f.get_row_mut(r)[col] = v.clone();
            for (k, o) in offsets.iter().enumerate() {
                let mut row = want[(step + o * blowup as usize) % n].clone();
                if k == r {
                    row[col] = v.clone();
                }
                ensure!(f.get_row(k) == &row[..], "frame-write", "row {k}: {fd}");
            }
            let g = Frame::new((0..offsets.len()).flat_map(|k| f.get_row(k).to_vec()).collect(), w);
            ensure!(g == f, "frame-new", "{fd}");
        }
        if n >= 2 && w >= 2 {
            ctx.nontrivial(format!("{d} {} {}", short(&want[0][0]), short(&want[n - 1][w - 1])).as_bytes());
        }
        Ok(())
    };
    c.run("tables", c.n(40_000, 800_000), |src, ctx| {
        let n = if src.chance(1, 20) { src.usize(100, 600) } else { src.usize(1, 40) };
        let w = src.usize(1, 12);
        tables(src, ctx, n, w)
    });
    c.run("large tables", c.n(120, 2000), |src, ctx| {
        let (n, w) = match src.upto(3) {
            0 => (src.usize(65_530, 70_000), src.usize(1, 2)),
            1 => (src.usize(1_000, 20_000), src.usize(1, 9)),
            2 => (src.usize(1, 20), src.usize(250, 700)),
            _ => (src.usize(1, 600), src.usize(12, 140)),
        };
        tables(src, ctx, n, w)
    });

    let extensions = |src: &mut Src, ctx: &mut Ctx, log: u64, blow_log: u64, w: usize| {
        let n = 1usize << log;
        let want = cells(src, n, w);
        let d = format!("{n} rows, {w} columns");
        ctx.sample(d.clone());
        let t = TraceTable::new(want.iter().flatten().cloned().collect(), w);
        let polys = match guard(|| t.compute_trace_polys()) {
            Ok(p) => p,
            Err(m) => return fail("interpolation-crash", format!("{m}: {d}")),
        };
        ensure!(polys.len() == w, "polynomials", "{}: {d}", polys.len());
        let g = F::get_primitive_root_of_unity(log).unwrap();
        let mut points = vec![FE::one()];
        for k in 1..n {
            points.push(&points[k - 1] * &g);
        }
        for (c, p) in polys.iter().enumerate() {
            ensure!(degree_below(p, n), "degree", "column {c}: {d}");
            // long columns are checked in a sample of their rows
            let (stride, first) = if n > 512 { (n / 64, src.usize(0, n / 64 - 1)) } else { (1, 0) };
            for (r, x) in points.iter().enumerate().filter(|(r, _)| r % stride == first) {
                ensure!(eval(p, x) == want[r][c], "interpolation", "cell {r},{c}: {d}");
            }
        }

        // the extension, all of it when small, sampled positions otherwise
        let blowup = 1usize << blow_log;
        let offset = if src.bool() { FE::from(src.range(1, 40)) } else { fe_nonzero(src) };
        let h = F::get_primitive_root_of_unity(log + blow_log).unwrap();
        let mut columns = Vec::new();
        for (c, p) in polys.iter().enumerate() {
            let e = match guard(|| evaluate_polynomial_on_lde_domain(p, blowup, n, &offset)) {
                Ok(Ok(e)) => e,
                Ok(Err(e)) => return fail("extension-error", format!("{e:?} column {c} blowup {blowup} offset {}: {d}", short(&offset))),
                Err(m) => return fail("extension-crash", format!("{m}: column {c} blowup {blowup}: {d}")),
            };
            ensure!(e.len() == n * blowup, "extension-size", "{} values, blowup {blowup}: {d}", e.len());
            let mut x = offset.clone();
            let stride = (n * blowup / 64).max(1);
            let first = src.usize(0, stride - 1);
            for (k, v) in e.iter().enumerate() {
                if k % stride == first {
                    ensure!(*v == eval(p, &x), "extension", "column {c} point {k} blowup {blowup} offset {}: {d}", short(&offset));
                }
                x = &x * &h;
            }
            columns.push(e);
        }
        // frames of the extended trace are the polynomials at the shifted points
        let lde = TraceTable::new_from_cols(&columns);
        let offsets: Vec<usize> = (0..src.usize(1, 4)).map(|_| src.usize(0, n + 2)).collect();
        for _ in 0..4 {
            let k = src.usize(0, n * blowup - 1);
            let f = Frame::read_from_trace(&lde, k, blowup as u8, &offsets);
            let x = &offset * h.pow(k as u64);
            let at = Frame::get_trace_evaluations(&polys, &x, &offsets, &g);
            ensure!(at.len() == offsets.len(), "evaluations", "{}: {d}", at.len());
            for (r, o) in offsets.iter().enumerate() {
                let y = &x * g.pow(*o as u64);
                let want: Vec<FE> = polys.iter().map(|p| eval(p, &y)).collect();
                ensure!(at[r] == want, "evaluations", "point {k} offset {o}: {d}");
                ensure!(f.get_row(r) == &want[..], "extended-frame", "point {k} offset {o} blowup {blowup}: {d}");
            }
        }
        // and out of the domain
        let z = fe_uniform(src);
        let at = Frame::get_trace_evaluations(&polys, &z, &offsets, &g);
        for (r, o) in offsets.iter().enumerate() {
            let y = &z * g.pow(*o as u64);
            for (c, p) in polys.iter().enumerate() {
                ensure!(at[r][c] == eval(p, &y), "evaluations", "out of domain, offset {o}: {d}");
            }
        }
        if w >= 2 {
            ctx.nontrivial(format!("{d} {blowup} {} {}", short(&want[0][0]), short(&offset)).as_bytes());
        }
        Ok(())
    };
    c.run("low-degree extensions", c.n(6000, 100_000), |src, ctx| {
        let log = match src.upto(9) {
            0 => src.range(7, 9),
            1 => 0,
            _ => src.range(1, 6),
        };
        let blow_log = if log > 6 { src.range(0, 2) } else { src.range(0, 5) };
        let w = src.usize(1, 5);
        extensions(src, ctx, log, blow_log, w)
    });
    c.run("low-degree extensions of long columns", c.n(60, 600), |src, ctx| {
        let (log, w) = (src.range(9, 14), src.usize(1, 3));
        let blow_log = if log < 11 { src.range(1, 7) } else { src.range(0, 3) };
        extensions(src, ctx, log, blow_log, w)
    });
    c.finish()
}
