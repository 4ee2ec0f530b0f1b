//! C20: importing binary register traces and memory is exact and total.
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::errors::CairoImportError;
use lambdaworks_stark::cairo::register_states::RegisterStates;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

/// Own encoding of a register trace: ap, fp, pc, little endian.
fn encode_trace(rows: &[[u64; 3]]) -> Vec<u8> {
    rows.iter().flat_map(|r| r.iter().flat_map(|v| v.to_le_bytes())).collect()
}

/// Own encoding of a memory: address and value, little endian.
fn encode_memory(cells: &[(u64, FE)]) -> Vec<u8> {
    let mut out = Vec::new();
    for (a, v) in cells {
        out.extend(a.to_le_bytes());
        let mut b = v.to_bytes_be();
        b.reverse();
        out.extend(b);
    }
    out
}

fn check_trace(r: &RegisterStates, rows: &[[u64; 3]], d: &str) -> Res {
    ensure!(r.steps() == rows.len(), "steps", "{} steps: {d}", r.steps());
    ensure!(r.rows.len() == rows.len(), "rows", "{} rows: {d}", r.rows.len());
    for (k, (g, w)) in r.rows.iter().zip(rows).enumerate() {
        ensure!([g.ap, g.fp, g.pc] == *w, "entry", "row {k} is {g:?} instead of {w:?}: {d}");
    }
    Ok(())
}

fn check_memory(m: &CairoMemory, cells: &BTreeMap<u64, FE>, d: &str) -> Res {
    ensure!(m.len() == cells.len(), "length", "{} cells: {d}", m.len());
    ensure!(m.is_empty() == cells.is_empty(), "empty", "{d}");
    ensure!(m.data.len() == cells.len(), "cells", "{} cells: {d}", m.data.len());
    for (a, v) in cells {
        match m.get(a) {
            Some(g) => ensure!(g == v, "value", "cell {a} is {} instead of {}: {d}", short(g), short(v)),
            None => return fail("missing", format!("cell {a}: {d}")),
        }
    }
    for a in [0u64, 1, 7, u64::MAX] {
        ensure!(m.get(&a) == cells.get(&a), "get", "address {a}: {d}");
    }
    Ok(())
}

fn count(src: &mut Src) -> usize {
    match src.upto(9) {
        0 => 0,
        1 => 1,
        2 => src.usize(1000, 5000),
        _ => src.usize(2, 60),
    }
}

fn main() {
    let mut c = Check::new("C20", "a case counts when at least two entries are imported, or a malformed input is refused");
    let scratch = PathBuf::from(std::env::var("TMPDIR").unwrap_or("/tmp".into())).join(format!("c20-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");

    c.run("register traces", c.n(150_000, 3_000_000), |src, ctx| {
        let n = count(src);
        let rows: Vec<[u64; 3]> = (0..n).map(|_| [src.edgy_u64(), src.edgy_u64(), src.edgy_u64()]).collect();
        let bytes = encode_trace(&rows);
        let d = format!("{n} rows, first {:?}", rows.first());
        ctx.sample(d.clone());
        match guard(|| RegisterStates::from_bytes_le(&bytes)) {
            Ok(Ok(r)) => check_trace(&r, &rows, &d)?,
            Ok(Err(e)) => return fail("refused", format!("{e:?}: {d}")),
            Err(m) => return fail("crash", format!("{m}: {d}")),
        }
        if n >= 2 {
            ctx.nontrivial(&bytes);
        }
        Ok(())
    });

    c.run("memory dumps", c.n(60_000, 1_500_000), |src, ctx| {
        let n = count(src);
        let mut cells = BTreeMap::new();
        for k in 0..n as u64 {
            let a = if src.bool() { k } else { src.edgy_u64() };
            cells.insert(a, fe(src));
        }
        // in any order
        let mut list: Vec<(u64, FE)> = cells.clone().into_iter().collect();
        if src.bool() {
            for k in (1..list.len()).rev() {
                let j = src.usize(0, k);
                list.swap(k, j);
            }
        }
        let bytes = encode_memory(&list);
        let d = format!("{} cells, first {:?}", list.len(), list.first().map(|(a, v)| (a, short(v))));
        ctx.sample(d.clone());
        match guard(|| CairoMemory::from_bytes_le(&bytes)) {
            Ok(Ok(m)) => check_memory(&m, &cells, &d)?,
            Ok(Err(e)) => return fail("refused", format!("{e:?}: {d}")),
            Err(m) => return fail("crash", format!("{m}: {d}")),
        }
        if list.len() >= 2 {
            ctx.nontrivial(&bytes);
        }
        Ok(())
    });

    // more entries than narrow counters and buffers hold
    c.run("long dumps", c.n(16, 160), |src, ctx| {
        let n = match src.upto(3) {
            0 => src.usize(65_530, 65_540),
            1 => src.usize(131_000, 300_000),
            _ => src.usize(5_000, 131_000),
        };
        let rows: Vec<[u64; 3]> = (0..n as u64).map(|k| [k.wrapping_mul(0x9e37_79b9_7f4a_7c15), k, !k]).collect();
        let step = src.range(1, 1 << 20);
        let cells: BTreeMap<u64, FE> = (0..n as u64).map(|k| (k * step, FE::from(k) * FE::from(!k))).collect();
        let d = format!("{n} entries, addresses {step} apart");
        ctx.sample(d.clone());
        match guard(|| RegisterStates::from_bytes_le(&encode_trace(&rows))) {
            Ok(Ok(r)) => check_trace(&r, &rows, &d)?,
            r => return fail("refused", format!("{:?}: {d}", r.map(|r| r.map(|_| ())))),
        }
        let list: Vec<(u64, FE)> = cells.clone().into_iter().collect();
        match guard(|| CairoMemory::from_bytes_le(&encode_memory(&list))) {
            Ok(Ok(m)) => check_memory(&m, &cells, &d)?,
            r => return fail("refused", format!("{:?}: {d}", r.map(|r| r.map(|_| ())))),
        }
        ctx.nontrivial(d.as_bytes());
        Ok(())
    });

    // every length up to a bound, then generated ones: an error exactly when not a multiple
    let wrong = |bytes: &[u8], ctx: &mut Ctx| -> Res {
        let n = bytes.len();
        ctx.evals(2);
        match guard(|| RegisterStates::from_bytes_le(bytes)) {
            Ok(Ok(r)) => ensure!(n % 24 == 0 && r.steps() == n / 24, "trace-length", "{n} bytes read as {} steps", r.steps()),
            Ok(Err(e)) => {
                ensure!(n % 24 != 0 && matches!(e, CairoImportError::IncorrectNumberOfBytes), "trace-length", "{n} bytes: {e:?}");
                ctx.nontrivial(&(n as u64).to_le_bytes());
            }
            Err(m) => return fail("trace-crash", format!("{n} bytes: {m}")),
        }
        match guard(|| CairoMemory::from_bytes_le(bytes)) {
            Ok(Ok(m)) => ensure!(n % 40 == 0 && m.len() <= n / 40, "memory-length", "{n} bytes read as {} cells", m.len()),
            Ok(Err(e)) => {
                ensure!(n % 40 != 0 && matches!(e, CairoImportError::IncorrectNumberOfBytes), "memory-length", "{n} bytes: {e:?}");
                ctx.nontrivial(&(n as u64 | 1 << 40).to_le_bytes());
            }
            Err(m) => return fail("memory-crash", format!("{n} bytes: {m}")),
        }
        Ok(())
    };
    c.run_indexed("every length", c.n(10_000, 100_000), |k, ctx| wrong(&vec![(k % 5) as u8; k as usize], ctx));
    c.run("any bytes", c.n(100_000, 2_000_000), |src, ctx| {
        let n = match src.upto(3) {
            0 => src.usize(0, 2000),
            1 => 24 * src.usize(0, 40) + src.usize(0, 2),
            _ => 40 * src.usize(0, 40) + src.usize(0, 2),
        };
        let b = src.bytes(n);
        ctx.sample(format!("{n} bytes"));
        wrong(&b, ctx)
    });

    // through files
    c.run("files", c.n(3000, 30_000), |src, ctx| {
        let n = count(src);
        let rows: Vec<[u64; 3]> = (0..n).map(|_| [src.edgy_u64(), src.edgy_u64(), src.edgy_u64()]).collect();
        let mut cells = BTreeMap::new();
        for _ in 0..n {
            let a = src.edgy_u64();
            cells.insert(a, fe(src));
        }
        let list: Vec<(u64, FE)> = cells.clone().into_iter().collect();
        let id = src.u64();
        let (tp, mp) = (scratch.join(format!("{id:x}.trace")), scratch.join(format!("{id:x}.memory")));
        let (ts, ms) = (tp.to_str().unwrap(), mp.to_str().unwrap());
        let (mut tb, mut mb) = (encode_trace(&rows), encode_memory(&list));
        let cut = if src.bool() { src.usize(1, 23) } else { 0 };
        tb.truncate(tb.len().saturating_sub(cut));
        mb.truncate(mb.len().saturating_sub(cut));
        let d = format!("{n} entries, cut {cut}");
        ctx.sample(d.clone());
        ctx.evals(4);
        // nothing there yet
        for r in [guard(|| RegisterStates::from_file(ts).err()), guard(|| CairoMemory::from_file(ms).err())] {
            ensure!(matches!(r, Ok(Some(CairoImportError::FileError(_)))), "missing-file", "{r:?}: {d}");
        }
        std::fs::write(&tp, &tb).unwrap();
        std::fs::write(&mp, &mb).unwrap();
        let t = guard(|| RegisterStates::from_file(ts));
        let m = guard(|| CairoMemory::from_file(ms));
        std::fs::remove_file(&tp).unwrap();
        std::fs::remove_file(&mp).unwrap();
        match t {
            Ok(Ok(r)) => {
                ensure!(tb.len() % 24 == 0, "file-trace-length", "{d}");
                check_trace(&r, &rows[..tb.len() / 24], &d)?
            }
            Ok(Err(e)) => ensure!(tb.len() % 24 != 0 && matches!(e, CairoImportError::IncorrectNumberOfBytes), "file-trace", "{e:?}: {d}"),
            Err(e) => return fail("file-crash", format!("{e}: {d}")),
        }
        match m {
            Ok(Ok(r)) => {
                ensure!(mb.len() % 40 == 0, "file-memory-length", "{d}");
                check_memory(&r, &cells, &d)?
            }
            Ok(Err(e)) => ensure!(mb.len() % 40 != 0 && matches!(e, CairoImportError::IncorrectNumberOfBytes), "file-memory", "{e:?}: {d}"),
            Err(e) => return fail("file-crash", format!("{e}: {d}")),
        }
        if n >= 2 || cut > 0 {
            ctx.nontrivial(format!("{id} {d}").as_bytes());
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&scratch);
    c.finish()
}
