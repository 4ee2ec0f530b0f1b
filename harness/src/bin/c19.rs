//! C19: completed Cairo traces are complete for memory and range checks.
use lambdaworks_stark::cairo::air::{CairoAIR, CairoRAPChallenges};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use std::collections::BTreeMap;
use vh::cairo::{self, to_u64, Cfg, Run};
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

const ADDR: [usize; 4] = [19, 20, 21, 22];
const VAL: [usize; 4] = [23, 24, 25, 26];
const OFF: [usize; 3] = [27, 28, 29];

fn check(run: &Run, src: &mut Src, ctx: &mut Ctx) -> Res {
    let d = run.describe();
    let mut pubs = run.public();
    let t = match guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)) {
        Ok(t) => t,
        Err(m) => return fail("crash", format!("{m}: {d}")),
    };
    let n = t.n_rows();
    let main = rows(&t);
    let want = run.rows();
    ensure!(n.is_power_of_two(), "length", "{n} rows: {d}");
    ensure!(n >= want.len(), "length", "{n} rows for {} steps: {d}", want.len());
    let width = if run.rc.is_some() { 43 } else { 34 };
    ensure!(t.n_cols == width, "width", "{} columns: {d}", t.n_cols);
    for (k, w) in want.iter().enumerate() {
        ensure!(main[k][..34] == w[..], "steps", "row {k} is not the executed step: {d}");
    }
    for (k, r) in main.iter().enumerate().skip(want.len()) {
        ensure!(r[33] == FE::zero(), "selector", "row {k} after the last step is selected: {d}");
        for f in 0..15 {
            ensure!(&r[f] * (&r[f] - FE::one()) == FE::zero(), "flags", "row {k} flag {f} = {}: {d}", short(&r[f]));
        }
        ensure!(r[15] == FE::zero(), "flags", "row {k} flag 15: {d}");
    }
    // range check builtin
    if let Some(range) = &run.rc {
        for (k, a) in range.clone().enumerate() {
            ensure!(k < main.len(), "rc-values", "no row for memory cell {a}: {d}");
            if k >= want.len() {
                ctx.label("builtin cell beyond the steps");
            }
            let unused = !run.mem.contains_key(&a);
            ensure!(unused || main[k][42] == run.mem[&a], "rc-values", "row {k}: {} instead of memory cell {a}: {d}", short(&main[k][42]));
        }
        for (k, r) in main.iter().enumerate() {
            let mut v = FE::zero();
            for c in (34..42).rev() {
                ensure!(to_u64(&r[c]).is_some_and(|x| x < 65536), "rc-limbs", "row {k} column {c} = {}: {d}", short(&r[c]));
                v = v * FE::from(65536u64) + &r[c];
            }
            ensure!(v == r[42], "rc-limbs", "row {k} does not recompose: {d}");
        }
    }
    // offsets
    let offs: Option<Vec<u64>> = main.iter().flat_map(|r| OFF.map(|c| to_u64(&r[c]).filter(|x| *x < 65536))).collect();
    let Some(mut offs) = offs else { return fail("offsets", format!("an offset is no 16 bit value: {d}")) };
    let used: Vec<u64> = run.steps.iter().flat_map(|(i, _)| i.biased()).collect();
    let (lo, hi) = (*used.iter().min().unwrap(), *used.iter().max().unwrap());
    ensure!(pubs.range_check_min == Some(lo as u16) && pubs.range_check_max == Some(hi as u16), "rc-bounds", "{:?} {:?} instead of {lo} {hi}: {d}", pubs.range_check_min, pubs.range_check_max);
    offs.sort();
    ensure!(offs[0] == lo && offs[offs.len() - 1] == hi, "offset-range", "{} to {} instead of {lo} to {hi}: {d}", offs[0], offs[offs.len() - 1]);
    ensure!(offs.windows(2).all(|w| w[1] - w[0] <= 1), "offset-holes", "{d}");
    // memory
    let acc: Vec<(FE, FE)> = main.iter().flat_map(|r| (0..4).map(|k| (r[ADDR[k]].clone(), r[VAL[k]].clone())).collect::<Vec<_>>()).collect();
    let room = pubs.public_memory.len();
    ensure!(acc.len() >= room && acc[acc.len() - room..].iter().all(|(a, v)| *a == FE::zero() && *v == FE::zero()), "public-room", "the last {room} accesses are not free for the public memory: {d}");
    let mut all: Vec<(FE, FE)> = acc[..acc.len() - room].to_vec();
    all.extend(pubs.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())));
    let mut cells: BTreeMap<u64, FE> = BTreeMap::new();
    for (a, v) in &all {
        let Some(a) = to_u64(a) else { return fail("addresses", format!("address {}: {d}", short(a))) };
        let e = cells.entry(a).or_insert_with(|| v.clone());
        ensure!(e == v, "memory-values", "cell {a} has two values: {d}");
    }
    let keys: Vec<u64> = cells.keys().copied().collect();
    ensure!(keys.windows(2).all(|w| w[1] - w[0] == 1), "memory-holes", "addresses {:?}: {d}", keys.windows(2).find(|w| w[1] - w[0] != 1));
    let read: std::collections::HashSet<u64> = run.steps.iter().flat_map(|(_, s)| s.addr).collect();
    for (a, v) in &cells {
        if let Some(m) = run.mem.get(a) {
            // a cell which no step reads may be filled with anything
            if read.contains(a) || *a <= run.program_len {
                ensure!(m == v, "memory-values", "cell {a} is {} instead of {}: {d}", short(v), short(m));
            }
        }
    }
    // auxiliary columns
    let air = CairoAIR::new(n, &pubs, &ProofOptions::default_test_options());
    let ch = CairoRAPChallenges { alpha_memory: fe_uniform(src), z_memory: fe_uniform(src), z_range_check: fe_uniform(src) };
    let aux = match guard(|| air.build_auxiliary_trace(&t, &ch)) {
        Ok(t) => t,
        Err(m) => return fail("aux-crash", format!("{m}: {d}")),
    };
    ensure!(aux.n_cols == 18 && aux.n_rows() == n && air.number_auxiliary_rap_columns() == 18, "aux-shape", "{} x {}: {d}", aux.n_rows(), aux.n_cols);
    let aux = rows(&aux);
    let flat = |c: std::ops::Range<usize>| -> Vec<FE> { aux.iter().flat_map(|r| r[c.clone()].to_vec()).collect() };
    let sorted_off = flat(0..3);
    ensure!(sorted_off == offs.iter().map(|x| FE::from(*x)).collect::<Vec<_>>(), "sorted-offsets", "{d}");
    let (sa, sv) = (flat(3..7), flat(7..11));
    let mut want_sorted: Vec<(u64, String)> = all.iter().map(|(a, v)| (to_u64(a).unwrap(), v.to_string())).collect();
    want_sorted.sort();
    let got_sorted: Vec<(u64, String)> = sa.iter().zip(&sv).map(|(a, v)| (to_u64(a).unwrap_or(u64::MAX), v.to_string())).collect();
    ensure!(got_sorted == want_sorted, "sorted-memory", "{d}");
    let mut p = FE::one();
    for (k, got) in flat(11..15).iter().enumerate() {
        p = p * (&ch.z_memory - (&acc[k].0 + &ch.alpha_memory * &acc[k].1));
        let ok = got * (&ch.z_memory - (&sa[k] + &ch.alpha_memory * &sv[k])) == p;
        p = got.clone();
        ensure!(ok, "memory-product", "factor {k}: {d}");
    }
    let den = pubs.public_memory.iter().fold(FE::one(), |x, (a, v)| x * (&ch.z_memory - (a + &ch.alpha_memory * v)));
    ensure!(p == ch.z_memory.pow(room) * den.inv(), "memory-product", "does not close: {d}");
    let offcol: Vec<FE> = main.iter().flat_map(|r| OFF.map(|c| r[c].clone())).collect();
    let mut p = FE::one();
    for (k, got) in flat(15..18).iter().enumerate() {
        p = p * (&ch.z_range_check - &offcol[k]);
        let ok = got * (&ch.z_range_check - &sorted_off[k]) == p;
        p = got.clone();
        ensure!(ok, "offset-product", "factor {k}: {d}");
    }
    ensure!(p == FE::one(), "offset-product", "does not close: {d}");
    let last = main[n - 1][33].clone();
    ensure!(last == FE::zero(), "selector", "the last row is selected: {d}");
    ctx.label(format!("log2 rows {}", n.ilog2()));
    if (lo, hi) == (0, 65535) {
        ctx.label("offsets over the whole range");
    }
    ctx.label(if lo + 1 < hi { "offset range" } else { "narrow offsets" });
    if run.output.is_some() {
        ctx.label("output");
    }
    if run.rc.is_some() {
        ctx.label("range checks");
    }
    ctx.sample(d.clone());
    ctx.nontrivial(d.as_bytes());
    Ok(())
}

fn main() {
    let mut c = Check::new("C19", "every completed trace counts; distinct by execution");
    let n = c.n(30_000, 400_000);
    c.run("generated executions", n, |src, ctx| {
        let run = cairo::generate(src, &Cfg::default());
        check(&run, src, ctx)
    });
    let n = c.n(1000, 10_000);
    c.run("wide", n, |src, ctx| {
        let far = *src.pick(&[300u64, 1000, 5000]);
        let run = cairo::generate(src, &Cfg { far, max_steps: 400, max_program: 300, max_output: 9, max_rc: 40, max_room: 900, free_room: 6000, ..Cfg::default() });
        check(&run, src, ctx)
    });
    let n = c.n(240, 3000);
    c.run("large gaps", n, |src, ctx| {
        let far = *src.pick(&[12_000u64, 20_000, 32_768, 32_768]);
        let max_room = *src.pick(&[900, 60_000, 140_000]);
        let run = cairo::generate(src, &Cfg { far, max_steps: 60, max_program: 60, max_output: 40, max_rc: 40, max_room, free_room: 150_000, ..Cfg::default() });
        check(&run, src, ctx)
    });
    let n = c.n(48, 600);
    c.run("offsets at both ends", n, |src, ctx| {
        let run = cairo::extremes(src);
        if run.steps.is_empty() {
            return Ok(());
        }
        check(&run, src, ctx)
    });
    c.assume("cells which no executed step accesses may hold any value");
    c.finish()
}
