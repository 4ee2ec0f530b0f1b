//! C21: the runner delivers exactly the execution and statement of the program.
use bincode::enc::write::Writer;
use cairo_vm::cairo_run::{cairo_run, CairoRunConfig};
use cairo_vm::felt::Felt252;
use cairo_vm::hint_processor::builtin_hint_processor::builtin_hint_processor_definition::BuiltinHintProcessor;
use cairo_vm::vm::runners::cairo_runner::layouts_asked;
use cairo_vm::vm::trace::trace_entry::TraceEntry;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::MemorySegment;
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::runner::file_writer::FileWriter;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
use lambdaworks_stark::cairo::runner::vec_writer::VecWriter;
use std::collections::BTreeMap;
use std::ops::Range;
use std::path::PathBuf;
use vh::cairo::{eval, to_u64, Instr, Mem, Regs};
use vh::programs::{self, Prog};
use vh::*;

#[global_allocator]
static ALLOC: engine::alloc::Counting = engine::alloc::Counting;

fn version(v1: bool) -> CairoVersion {
    if v1 {
        CairoVersion::V1
    } else {
        CairoVersion::V0
    }
}

/// Own reading of an instruction word.
fn decode(w: &FE) -> Option<Instr> {
    let w = to_u64(w)?;
    let off = |k: u32| ((w >> (16 * k)) & 0xffff) as i32 - 0x8000;
    let f = w >> 48;
    Some(Instr {
        off: [off(0), off(1), off(2)],
        dst_fp: f & 1 == 1,
        op0_fp: f >> 1 & 1 == 1,
        op1: (f >> 2 & 7) as u8,
        res: (f >> 5 & 3) as u8,
        pc: (f >> 7 & 7) as u8,
        ap: (f >> 10 & 3) as u8,
        op: (f >> 12 & 7) as u8,
    })
}

struct Seen {
    regs: Vec<Regs>,
    mem: Mem,
    rc: Option<Range<u64>>,
    len: usize,
}

fn run(p: &Prog, entry: Option<&str>, layout: CairoLayout) -> Result<Seen, Fail> {
    let d = p.describe();
    let r = guard(|| run_program(entry, layout, &p.bytes(), &version(p.v1)));
    let (regs, mem, len, rc) = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return fail("refused", format!("{e:?}: {d}")),
        Err(m) => return fail("crash", format!("{m}: {d}")),
    };
    Ok(Seen {
        regs: regs.rows.iter().map(|r| Regs { pc: r.pc, ap: r.ap, fp: r.fp }).collect(),
        mem: mem.data.iter().map(|(a, v)| (*a, v.clone())).collect(),
        rc,
        len,
    })
}

/// Compare what was delivered with what is known about the program.
fn examine(p: &Prog, s: &Seen) -> Result<Option<Range<u64>>, Fail> {
    let d = p.describe();
    ensure!(s.len == p.words.len(), "program-length", "{} instead of {}: {d}", s.len, p.words.len());
    for (k, w) in p.words.iter().enumerate() {
        ensure!(s.mem.get(&(k as u64 + 1)) == Some(w), "program-cell", "cell {}: {d}", k + 1);
    }
    ensure!(s.regs.len() == p.steps, "steps", "{} instead of {}: {d}", s.regs.len(), p.steps);
    let first = s.regs[0];
    ensure!(first.pc == p.main + 1, "entry-point", "{first:?}: {d}");
    ensure!(first.ap == first.fp, "first-frame", "{first:?}: {d}");
    // the execution segment follows the program (and the two extra words of a contract)
    let stack = if p.v1 { 7 } else { 2 + p.has_out as u64 + p.has_rc as u64 };
    let base = p.words.len() as u64 + 1 + if p.v1 { 2 } else { 0 };
    ensure!(first.ap == base + stack, "execution-base", "{first:?} instead of {}: {d}", base + stack);
    // every step follows the rules of the machine
    for (k, r) in s.regs.iter().enumerate() {
        let i = match s.mem.get(&r.pc).and_then(decode) {
            Some(i) => i,
            None => return fail("step", format!("step {k}: no instruction at {}: {d}", r.pc)),
        };
        match eval(&i, r, &s.mem) {
            Ok(t) if k + 1 < s.regs.len() => {
                let n = s.regs[k + 1];
                ensure!(t.next == n, "step", "step {k} {i:?}: {:?} instead of {n:?}: {d}", t.next);
            }
            Ok(_) => {}
            Err(m) => return fail("step", format!("step {k} {i:?}: {m}: {d}")),
        }
    }
    let cell = |off: i64| s.mem.get(&first.fp.wrapping_add_signed(off));
    for (off, v) in &p.known {
        ensure!(cell(*off) == Some(v), "known-cell", "[fp + {off}] is {:?} instead of {}: {d}", cell(*off).map(short), short(v));
    }
    let segment = |ptr: Option<i64>| ptr.and_then(|o| cell(o)).and_then(to_u64);
    if p.v1 {
        // what the calling convention of a contract puts below the first frame: range check
        // pointer, gas, system pointer, call data from and to; and behind the program a `ret`
        // and the pointer to the costs of the five builtins
        let at = |a: u64| s.mem.get(&a).and_then(to_u64);
        ensure!(segment(Some(-6)) == Some(u64::MAX), "gas", "{:?}: {d}", segment(Some(-6)));
        ensure!(segment(Some(-5)).is_some(), "system-pointer", "{d}");
        ensure!(segment(Some(-4)).is_some() && segment(Some(-4)) == segment(Some(-3)), "call-data", "{:?}..{:?}: {d}", segment(Some(-4)), segment(Some(-3)));
        let end = p.words.len() as u64 + 1;
        ensure!(at(end) == Some(0x208b_7fff_7fff_7ffe), "behind-the-program", "{:?}: {d}", at(end));
        let costs = at(end + 1);
        for k in 0..5 {
            let c = costs.and_then(|b| at(b + k));
            ensure!(c == Some(0), "builtin-cost", "builtin {k}: {c:?}: {d}");
        }
    }
    // range checks
    match (segment(p.rc_ptr()), &s.rc) {
        (Some(b), Some(r)) => {
            let want = b..b + p.range_checks.len() as u64;
            ensure!(*r == want, "range-check-segment", "{r:?} instead of {want:?}: {d}");
            for (k, v) in p.range_checks.iter().enumerate() {
                ensure!(s.mem.get(&(b + k as u64)) == v.as_ref(), "range-check-cell", "cell {k}: {d}");
            }
        }
        (None, None) => {}
        (a, b) => return fail("range-check-segment", format!("{b:?}, pointer {a:?}: {d}")),
    }
    let out = segment(p.out_ptr()).map(|b| b..b + p.outputs.len() as u64);
    if let Some(r) = &out {
        for (a, v) in r.clone().zip(&p.outputs) {
            ensure!(s.mem.get(&a) == Some(v), "output-cell", "cell {a}: {d}");
        }
    }
    Ok(out)
}

fn expect_layout(want: &str, d: &str) -> Res {
    let asked = layouts_asked();
    ensure!(!asked.is_empty() && asked.iter().all(|l| l == want), "layout", "the virtual machine was asked for {asked:?} instead of {want}: {d}");
    Ok(())
}

fn runs(src: &mut Src, ctx: &mut Ctx, ops: usize) -> Res {
    let v1 = src.chance(1, 3);
    let p = programs::generate(src, v1, ops);
    let d = p.describe();
    ctx.sample(d.clone());
    for n in &p.notes {
        ctx.label(*n);
    }
    ctx.label(if v1 { "Cairo 1" } else { "Cairo 0" });
    let named = [CairoLayout::Small, CairoLayout::AllCairo, CairoLayout::Dex, CairoLayout::Starknet];
    let layout = if v1 { CairoLayout::Plain } else { src.pick(&named).clone() };
    let name = layout.as_str();
    layouts_asked();
    let s = run(&p, if src.bool() { None } else { Some("main") }, layout)?;
    expect_layout(name, &d)?;
    examine(&p, &s)?;
    if !v1 {
        // exactly what the machine recorded
        let cfg = CairoRunConfig { entrypoint: "main", trace_enabled: true, relocate_mem: true, layout: "small", proof_mode: false, secure_run: None };
        let (runner, vm) = match cairo_run(&p.bytes(), &cfg, &mut BuiltinHintProcessor::new_empty()) {
            Ok(r) => r,
            Err(e) => return fail("machine", format!("{e:?}: {d}")),
        };
        let trace = vm.get_relocated_trace().unwrap();
        let want: Vec<Regs> = trace.iter().map(|t| Regs { pc: t.pc as u64, ap: t.ap as u64, fp: t.fp as u64 }).collect();
        ensure!(want == s.regs, "register-trace", "differs from the machine's: {d}");
        let mem: Mem = runner
            .relocated_memory
            .iter()
            .enumerate()
            .filter_map(|(a, v)| v.as_ref().map(|v| (a as u64, FE::from_bytes_be(&v.to_be_bytes()).unwrap())))
            .collect();
        ensure!(mem == s.mem, "memory", "differs from the machine's: {d}");
    }
    if p.steps >= 3 {
        ctx.nontrivial(d.as_bytes());
    }
    Ok(())
}

fn arguments(src: &mut Src, ctx: &mut Ctx, ops: usize) -> Res {
    let v1 = src.chance(1, 3);
    let p = programs::generate(src, v1, ops);
    let d = p.describe();
    ctx.sample(d.clone());
    let s = run(&p, None, if v1 { CairoLayout::Plain } else { CairoLayout::Small })?;
    let out = examine(&p, &s)?;
    let ask = out.clone().filter(|_| src.chance(3, 4));
    ctx.label(format!("output {}", if ask.is_some() { "named" } else { "not named" }));
    layouts_asked();
    let (t, pubs) = match guard(|| generate_prover_args(&p.bytes(), &version(v1), &ask)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return fail("arguments-refused", format!("{e:?}: {d}")),
        Err(m) => return fail("arguments-crash", format!("{m}: {d}")),
    };
    expect_layout(if v1 { "plain" } else { "small" }, &d)?;
    let (a, z) = (s.regs[0], s.regs[s.regs.len() - 1]);
    for (name, got, want) in [
        ("pc_init", &pubs.pc_init, a.pc),
        ("ap_init", &pubs.ap_init, a.ap),
        ("fp_init", &pubs.fp_init, a.fp),
        ("pc_final", &pubs.pc_final, z.pc),
        ("ap_final", &pubs.ap_final, z.ap),
    ] {
        ensure!(*got == FE::from(want), name, "{} instead of {want}: {d}", short(got));
    }
    ensure!(pubs.num_steps == s.regs.len(), "num-steps", "{}: {d}", pubs.num_steps);
    let mut want: BTreeMap<u64, FE> = p.words.iter().enumerate().map(|(k, w)| (k as u64 + 1, w.clone())).collect();
    for (a, v) in ask.clone().into_iter().flatten().zip(&p.outputs) {
        want.insert(a, v.clone());
    }
    let got: BTreeMap<u64, FE> = pubs.public_memory.iter().map(|(a, v)| (to_u64(a).unwrap_or(u64::MAX), v.clone())).collect();
    ensure!(got == want && pubs.public_memory.len() == want.len(), "public-memory", "{} cells instead of {}: {d}", got.len(), want.len());
    let segs = &pubs.memory_segments;
    ensure!(segs.get(&MemorySegment::Output) == ask.as_ref(), "output-segment", "{:?} instead of {ask:?}: {d}", segs.get(&MemorySegment::Output));
    ensure!(segs.get(&MemorySegment::RangeCheck) == s.rc.as_ref(), "range-check-segment", "{:?} instead of {:?}: {d}", segs.get(&MemorySegment::RangeCheck), s.rc);
    ensure!(segs.len() == ask.is_some() as usize + s.rc.is_some() as usize, "segments", "{} segments: {d}", segs.len());
    // the trace is the one of this run
    let (regs, mem, _, _) = run_program(None, if v1 { CairoLayout::Plain } else { CairoLayout::Small }, &p.bytes(), &version(v1)).unwrap();
    let mut again = pubs.clone();
    again.range_check_min = None;
    again.range_check_max = None;
    let t2 = build_main_trace(&regs, &mem, &mut again);
    ensure!(rows(&t) == rows(&t2), "main-trace", "not the trace of this run: {d}");
    ensure!(pubs.range_check_min.is_some() && pubs.range_check_min == again.range_check_min, "range-check-min", "{:?}: {d}", pubs.range_check_min);
    ensure!(pubs.range_check_max.is_some() && pubs.range_check_max == again.range_check_max, "range-check-max", "{:?}: {d}", pubs.range_check_max);
    for (k, r) in s.regs.iter().enumerate() {
        let row = &rows(&t)[k];
        ensure!([&row[17], &row[18], &row[19]] == [&FE::from(r.ap), &FE::from(r.fp), &FE::from(r.pc)], "main-trace", "registers of row {k}: {d}");
        if k > 40 {
            break;
        }
    }
    if p.steps >= 3 {
        ctx.nontrivial(d.as_bytes());
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C21", "a case counts when a program runs at least three steps, an input is refused, or at least two entries are written");
    c.assume("the virtual machine is a stand-in (DESIGN.md, Shims)");
    let scratch = PathBuf::from(std::env::var("TMPDIR").unwrap_or("/tmp".into())).join(format!("c21-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");

    c.run("programs run", c.n(20_000, 400_000), |src, ctx| {
        let ops = *src.pick(&[6, 20, 60]);
        runs(src, ctx, ops)
    });
    c.run("long programs run", c.n(300, 5000), |src, ctx| {
        let ops = *src.pick(&[100, 300, 800]);
        runs(src, ctx, ops)
    });

    c.run("prover arguments", c.n(12_000, 200_000), |src, ctx| {
        let ops = *src.pick(&[6, 20, 60]);
        arguments(src, ctx, ops)
    });
    c.run("prover arguments of long programs", c.n(60, 1000), |src, ctx| {
        let ops = *src.pick(&[100, 300]);
        arguments(src, ctx, ops)
    });

    c.run("inputs that cannot be run", c.n(30_000, 600_000), |src, ctx| {
        let (bytes, v1, what) = programs::broken(src);
        let d = format!("{what}, Cairo {}", v1 as u8);
        ctx.sample(d.clone());
        ctx.label(what.split(' ').filter(|w| w.chars().all(|c| c.is_alphabetic())).take(3).collect::<Vec<_>>().join(" "));
        let layout = if v1 { CairoLayout::Plain } else { CairoLayout::Small };
        match guard(|| run_program(None, layout, &bytes, &version(v1)).is_err()) {
            Ok(true) => {}
            Ok(false) => return fail("accepted", d),
            Err(m) => return fail("crash", format!("{m}: {d}")),
        }
        match guard(|| generate_prover_args(&bytes, &version(v1), &None).is_err()) {
            Ok(true) => {}
            Ok(false) => return fail("arguments-accepted", d),
            Err(m) => return fail("arguments-crash", format!("{m}: {d}")),
        }
        ctx.nontrivial(d.as_bytes());
        Ok(())
    });

    c.run("other entry points", c.n(2000, 20_000), |src, ctx| {
        // a function of any name can be run, an unknown one cannot
        let mut p = programs::generate(src, false, 12);
        let d = p.describe();
        let main = p.json["identifiers"]["__main__.main"].clone();
        let name = *src.pick(&["main2", "fib", "a.b", "Main"]);
        p.json["identifiers"][format!("__main__.{name}")] = main;
        if src.bool() {
            p.json["identifiers"]["__main__.main"]["pc"] = (p.main + 1).into();
        }
        let s = run(&p, Some(name), CairoLayout::Small)?;
        examine(&p, &s)?;
        match guard(|| run_program(Some("nothing"), CairoLayout::Small, &p.bytes(), &CairoVersion::V0).is_err()) {
            Ok(true) => {}
            r => return fail("unknown-entry", format!("{r:?}: {d}")),
        }
        // a program with builtins needs a layout that has them
        let plain = guard(|| run_program(Some(name), CairoLayout::Plain, &p.bytes(), &CairoVersion::V0).is_err());
        ensure!(plain == Ok(p.has_out || p.has_rc), "plain-layout", "{plain:?}: {d}");
        ctx.nontrivial(d.as_bytes());
        Ok(())
    });

    c.run("writers", c.n(20_000, 300_000), |src, ctx| {
        let n = match src.upto(5) {
            0 => 0,
            1 if src.chance(1, 800) => src.usize(65_000, 140_000),
            1 => src.usize(100, 2000),
            _ => src.usize(1, 30),
        };
        let mut want = src.bytes(3);
        let mut buf = want.clone();
        let d = format!("{n} entries");
        ctx.sample(d.clone());
        let mut sequence = vec![];
        {
            let mut w = VecWriter::new(&mut buf);
            for _ in 0..src.usize(1, 3) {
                match src.upto(2) {
                    0 => {
                        let t: Vec<TraceEntry> = (0..n)
                            .map(|_| TraceEntry { pc: src.edgy_u64() as usize, ap: src.edgy_u64() as usize, fp: src.edgy_u64() as usize })
                            .collect();
                        w.write_encoded_trace(&t);
                        for e in &t {
                            for v in [e.ap, e.fp, e.pc] {
                                want.extend((v as u64).to_le_bytes());
                            }
                        }
                        sequence.push("trace");
                    }
                    1 => {
                        let m: Vec<Option<FE>> = (0..n).map(|_| src.chance(3, 4).then(|| fe(src))).collect();
                        let cells: Vec<Option<Felt252>> =
                            m.iter().map(|v| v.as_ref().map(|v| Felt252::from_hex(&programs::hex(v)).unwrap())).collect();
                        w.write_encoded_memory(&cells);
                        for (a, v) in m.iter().enumerate() {
                            if let Some(v) = v {
                                want.extend((a as u64).to_le_bytes());
                                want.extend(v.to_bytes_be().iter().rev());
                            }
                        }
                        sequence.push("memory");
                    }
                    _ => {
                        let b = src.bytes(n);
                        let r = Writer::write(&mut w, &b);
                        ensure!(r.is_ok(), "write", "{d}");
                        want.extend(b);
                        sequence.push("bytes");
                    }
                }
                if src.chance(1, 4) {
                    ensure!(w.flush().is_ok(), "flush", "{d}");
                }
            }
            ensure!(w.flush().is_ok(), "flush", "{d}");
        }
        ensure!(buf == want, "vec-writer", "{} bytes instead of {}: {sequence:?} {d}", buf.len(), want.len());
        if n >= 2 {
            ctx.nontrivial(format!("{sequence:?}{d}").as_bytes());
        }
        Ok(())
    });

    c.run("file writer", c.n(1500, 20_000), |src, ctx| {
        let path = scratch.join(format!("w{:x}", engine::hash64(format!("{:?}", std::thread::current().id()).as_bytes())));
        let mut want = vec![];
        let mut sizes = vec![];
        let cap = *src.pick(&[0usize, 1, 64, 8192]);
        {
            let file = std::fs::File::create(&path).expect("scratch file");
            let mut w = FileWriter::new(std::io::BufWriter::with_capacity(cap, file));
            for _ in 0..src.usize(0, 8) {
                let n = match src.upto(4) {
                    0 => 0,
                    1 if src.chance(1, 20) => src.usize(65_000, 300_000),
                    1 => src.usize(8000, 20_000),
                    _ => src.usize(1, 100),
                };
                let b = src.bytes(n);
                ensure!(Writer::write(&mut w, &b).is_ok(), "write", "{sizes:?}");
                want.extend(b);
                sizes.push(n);
                if src.chance(1, 3) {
                    ensure!(w.flush().is_ok(), "flush", "{sizes:?}");
                    ensure!(std::fs::read(&path).unwrap() == want, "file-flushed", "after {sizes:?}, buffer {cap}");
                }
            }
            ensure!(w.flush().is_ok(), "flush", "{sizes:?}");
            ensure!(std::fs::read(&path).unwrap() == want, "file-writer", "after {sizes:?}, buffer {cap}");
        }
        ensure!(std::fs::read(&path).unwrap() == want, "file-writer", "after {sizes:?}, buffer {cap}");
        let _ = std::fs::remove_file(&path);
        ctx.sample(format!("{sizes:?}"));
        if want.len() >= 2 {
            ctx.nontrivial(&want);
        }
        // a file that cannot be written to is an error
        if let Ok(file) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            let mut w = FileWriter::new(std::io::BufWriter::with_capacity(cap, file));
            let b = src.bytes(200);
            let bad = Writer::write(&mut w, &b).is_err() || w.flush().is_err();
            ensure!(bad, "full-device", "no error from a full device, buffer {cap}");
            std::mem::forget(w);
        }
        Ok(())
    });

    let layouts = [
        (CairoLayout::Plain, "plain"),
        (CairoLayout::Small, "small"),
        (CairoLayout::Dex, "dex"),
        (CairoLayout::Recursive, "recursive"),
        (CairoLayout::Starknet, "starknet"),
        (CairoLayout::StarknetWithKeccak, "starknet_with_keccak"),
        (CairoLayout::RecursiveLargeOutput, "recursive_large_output"),
        (CairoLayout::AllCairo, "all_cairo"),
        (CairoLayout::AllSolidity, "all_solidity"),
        (CairoLayout::Dynamic, "dynamic"),
    ];
    c.each("layouts", &layouts, |(l, name), ctx| {
        ctx.sample(format!("{l:?}"));
        ensure!(l.as_str() == *name, "layout-name", "{l:?} is called {}", l.as_str());
        let mut src = Src::random(1);
        let p = programs::generate(&mut src, false, 0);
        layouts_asked();
        let r = guard(|| run_program(None, l.clone(), &p.bytes(), &CairoVersion::V0).is_ok());
        ensure!(*name == "plain" || r == Ok(true), "layout-run", "{l:?}: {r:?}");
        expect_layout(name, "layouts")?;
        ctx.nontrivial(name.as_bytes());
        Ok(())
    });

    let dir = scratch.clone();
    let _ = std::fs::remove_dir_all(&dir);
    c.finish()
}
