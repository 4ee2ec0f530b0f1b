//! C18: instruction decoding follows the Cairo encoding.
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::decode::instruction_flags::*;
use lambdaworks_stark::cairo::decode::instruction_offsets::InstructionOffsets;
use lambdaworks_stark::cairo::errors::InstructionDecodingError as E;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use std::collections::{HashMap, HashSet};
use vh::*;

/// The instruction of a word: the fields as the Cairo encoding lays them out, None where the
/// encoding has no meaning.
struct Fields {
    dst: DstReg,
    op0: Op0Reg,
    op1: Option<Op1Src>,
    res: Option<ResLogic>,
    pc: Option<PcUpdate>,
    ap: Option<ApUpdate>,
    op: Option<CairoOpcode>,
}

fn bit(w: u64, k: u32) -> bool {
    w >> k & 1 == 1
}

fn one_of<T>(w: u64, none: T, ones: Vec<(u32, T)>) -> Option<T> {
    let set: usize = ones.iter().filter(|(k, _)| bit(w, 48 + *k)).count();
    match set {
        0 => Some(none),
        1 => ones.into_iter().find(|(k, _)| bit(w, 48 + *k)).map(|x| x.1),
        _ => None,
    }
}

fn fields(w: u64) -> Fields {
    Fields {
        dst: if bit(w, 48) { DstReg::FP } else { DstReg::AP },
        op0: if bit(w, 49) { Op0Reg::FP } else { Op0Reg::AP },
        op1: one_of(w, Op1Src::Op0, vec![(2, Op1Src::Imm), (3, Op1Src::FP), (4, Op1Src::AP)]),
        res: one_of(w, ResLogic::Op1, vec![(5, ResLogic::Add), (6, ResLogic::Mul)]),
        pc: one_of(w, PcUpdate::Regular, vec![(7, PcUpdate::Jump), (8, PcUpdate::JumpRel), (9, PcUpdate::Jnz)]),
        ap: one_of(w, ApUpdate::Regular, vec![(10, ApUpdate::Add), (11, ApUpdate::Add1)]),
        op: one_of(w, CairoOpcode::NOp, vec![(12, CairoOpcode::Call), (13, CairoOpcode::Ret), (14, CairoOpcode::AssertEq)]),
    }
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, w: u64, got: Result<Result<T, E>, String>, want: &Option<T>, err: E) -> Res {
    match (got, want) {
        (Err(m), _) => fail("crash", format!("{what} of {w:#018x}: {m}")),
        (Ok(Ok(g)), Some(x)) => {
            ensure!(&g == x, what, "{w:#018x}: {g:?} instead of {x:?}");
            Ok(())
        }
        (Ok(Err(e)), None) => {
            ensure!(e == err, what, "{w:#018x}: error {e:?} instead of {err:?}");
            Ok(())
        }
        (Ok(g), x) => fail(what, format!("{w:#018x}: {g:?} instead of {x:?}")),
    }
}

/// Everything about one word; returns whether it is an instruction.
fn word(w: u64) -> Result<bool, Fail> {
    let v = FE::from(w);
    let f = fields(w);
    expect("dst_reg", w, guard(|| DstReg::try_from(&v)), &Some(f.dst.clone()), E::InvalidDstReg)?;
    expect("op0_reg", w, guard(|| Op0Reg::try_from(&v)), &Some(f.op0.clone()), E::InvalidOp0Reg)?;
    expect("op1_src", w, guard(|| Op1Src::try_from(&v)), &f.op1, E::InvalidOp1Src)?;
    expect("res_logic", w, guard(|| ResLogic::try_from(&v)), &f.res, E::InvalidResLogic)?;
    expect("pc_update", w, guard(|| PcUpdate::try_from(&v)), &f.pc, E::InvalidPcUpdate)?;
    expect("ap_update", w, guard(|| ApUpdate::try_from(&v)), &f.ap, E::InvalidApUpdate)?;
    expect("opcode", w, guard(|| CairoOpcode::try_from(&v)), &f.op, E::InvalidOpcode)?;
    let got = match guard(|| CairoInstructionFlags::try_from(&v)) {
        Ok(g) => g,
        Err(m) => return fail("crash", format!("flags of {w:#018x}: {m}")),
    };
    let valid = f.op1.is_some() && f.res.is_some() && f.pc.is_some() && f.ap.is_some() && f.op.is_some();
    match got {
        Err(e) => {
            let fits = match e {
                E::InvalidOp1Src => f.op1.is_none(),
                E::InvalidResLogic => f.res.is_none(),
                E::InvalidPcUpdate => f.pc.is_none(),
                E::InvalidApUpdate => f.ap.is_none(),
                E::InvalidOpcode => f.op.is_none(),
                _ => false,
            };
            ensure!(fits, "flags-error", "{w:#018x}: {e:?}");
            ensure!(!valid, "flags", "{w:#018x}: refused with {e:?}");
        }
        Ok(g) => {
            ensure!(valid, "flags", "{w:#018x} has no meaning but decodes to {g:?}");
            let same = g.dst_reg == f.dst
                && g.op0_reg == f.op0
                && Some(&g.op1_src) == f.op1.as_ref()
                && Some(&g.res_logic) == f.res.as_ref()
                && Some(&g.pc_update) == f.pc.as_ref()
                && Some(&g.ap_update) == f.ap.as_ref()
                && Some(&g.opcode) == f.op.as_ref();
            ensure!(same, "flags", "{w:#018x}: {g:?}");
            let bits = match guard(|| g.to_trace_representation()) {
                Ok(b) => b,
                Err(m) => return fail("crash", format!("bits of {w:#018x}: {m}")),
            };
            for (k, b) in bits.iter().enumerate() {
                ensure!(*b == FE::from(w >> (48 + k) & 1), "flag-bits", "{w:#018x}: bit {k} is {}", short(b));
            }
        }
    }
    let o = match guard(|| InstructionOffsets::new(&v)) {
        Ok(o) => o,
        Err(m) => return fail("crash", format!("offsets of {w:#018x}: {m}")),
    };
    let parts = [w & 0xffff, w >> 16 & 0xffff, w >> 32 & 0xffff];
    let want = parts.map(|p| p as i32 - 32768);
    ensure!([o.off_dst, o.off_op0, o.off_op1] == want, "offsets", "{w:#018x}: {o:?} instead of {want:?}");
    for (k, shift) in [0u32, 16, 32].into_iter().enumerate() {
        let d = guard(|| InstructionOffsets::decode_offset(&v, shift));
        ensure!(d == Ok(want[k]), "decode-offset", "{w:#018x}: {d:?} at {shift}");
    }
    let r = match guard(|| o.to_trace_representation::<F>()) {
        Ok(r) => r,
        Err(m) => return fail("crash", format!("biased offsets of {w:#018x}: {m}")),
    };
    ensure!(r == parts.map(FE::from), "biased-offsets", "{w:#018x}: {:?}", r.iter().map(short).collect::<Vec<_>>());
    Ok(valid)
}

const EDGES: [u64; 9] = [0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x00ff];

fn valid_flags(src: &mut Src) -> u64 {
    let hot = |src: &mut Src, n: u64, at: u64| match src.upto(n) {
        0 => 0,
        k => 1 << (at + k - 1),
    };
    src.upto(3) | hot(src, 3, 2) | hot(src, 2, 5) | hot(src, 3, 7) | hot(src, 2, 10) | hot(src, 3, 12)
}

fn offset(src: &mut Src) -> u64 {
    if src.bool() {
        *src.pick(&EDGES)
    } else {
        src.upto(0xffff)
    }
}

fn any_word(src: &mut Src) -> u64 {
    let flags = if src.upto(3) > 0 { valid_flags(src) } else { src.upto(0x7fff) };
    flags << 48 | offset(src) << 32 | offset(src) << 16 | offset(src)
}

fn main() {
    let mut c = Check::new("C18", "a word counts when all its fields have a meaning");
    let seed = c.seed;
    let reps = c.n(96, 2000);

    c.run_indexed("every flag combination", 1 << 15, |k, ctx| {
        let mut src = Src::random(engine::hash64(format!("{seed}/{k}").as_bytes()));
        let mut n = 0;
        for r in 0..reps {
            let w = if r == 0 { k << 48 } else { k << 48 | offset(&mut src) << 32 | offset(&mut src) << 16 | offset(&mut src) };
            n += 1;
            if word(w)? {
                ctx.nontrivial(&w.to_le_bytes());
                ctx.sample(format!("{w:#018x}"));
            }
        }
        ctx.evals(n);
        Ok(())
    });

    c.run_indexed("every offset", 3 << 16, |k, ctx| {
        let (at, off) = (k % 3, k / 3);
        let mut src = Src::random(engine::hash64(format!("{seed}/offset/{k}").as_bytes()));
        let mut n = 0;
        for _ in 0..(reps / 6) {
            let mut parts = [offset(&mut src), offset(&mut src), offset(&mut src)];
            parts[at as usize] = off;
            let w = valid_flags(&mut src) << 48 | parts[2] << 32 | parts[1] << 16 | parts[0];
            n += 1;
            ensure!(word(w)?, "generator", "{w:#018x} should have a meaning");
            ctx.nontrivial(&w.to_le_bytes());
            ctx.sample(format!("{w:#018x}"));
        }
        ctx.evals(n);
        Ok(())
    });

    // words seen through the register trace, in order
    c.run("trace of instructions", c.n(100_000, 2_000_000), |src, ctx| {
        let n = src.usize(0, 40);
        let mut memory: HashMap<u64, FE> = HashMap::new();
        let mut words = Vec::new();
        let mut states = Vec::new();
        let mut at = HashSet::new();
        for _ in 0..n {
            let pc = if src.bool() { src.upto(60) } else { src.edgy_u64() };
            // a good word unless said otherwise
            if at.insert(pc) {
                let w = valid_flags(src) << 48 | offset(src) << 32 | offset(src) << 16 | offset(src);
                memory.insert(pc, FE::from(w));
            }
            states.push(RegistersState { pc, fp: src.edgy_u64(), ap: src.edgy_u64() });
            words.push(vh::cairo::to_u64(&memory[&pc]).unwrap());
        }
        let noise = src.usize(0, 10);
        for _ in 0..noise {
            let a = src.edgy_u64();
            let v = fe(src);
            memory.entry(a).or_insert(v);
        }
        // at most one bad step
        let mut bad: Option<(usize, Option<u64>)> = None;
        if n > 0 && src.bool() {
            let k = src.usize(0, n - 1);
            let pc = states[k].pc;
            let first = states.iter().position(|s| s.pc == pc).unwrap();
            if src.bool() {
                memory.remove(&pc);
                bad = Some((first, None));
            } else {
                let w = any_word(src);
                memory.insert(pc, FE::from(w));
                let f = fields(w);
                if f.op1.is_none() || f.res.is_none() || f.pc.is_none() || f.ap.is_none() || f.op.is_none() {
                    bad = Some((first, Some(w)));
                } else {
                    for (s, x) in states.iter().zip(words.iter_mut()) {
                        if s.pc == pc {
                            *x = w;
                        }
                    }
                }
            }
        }
        let d = format!("{n} steps {states:?} bad {bad:?}");
        ctx.sample(d.clone());
        let mem = CairoMemory::new(memory);
        let trace = RegisterStates { rows: states };
        let got = match guard(|| trace.flags_and_offsets(&mem)) {
            Ok(g) => g,
            Err(m) => return fail("crash", format!("{m}: {d}")),
        };
        match (got, bad) {
            (Ok(list), None) => {
                ensure!(list.len() == n, "steps", "{} entries for {n} steps", list.len());
                for (k, (flags, offs)) in list.iter().enumerate() {
                    let bits = flags.to_trace_representation();
                    let o = offs.to_trace_representation::<F>();
                    let w = words[k];
                    for (b, v) in bits.iter().enumerate() {
                        ensure!(*v == FE::from(w >> (48 + b) & 1), "step-flags", "step {k} bit {b}: {d}");
                    }
                    ensure!(o == [w & 0xffff, w >> 16 & 0xffff, w >> 32 & 0xffff].map(FE::from), "step-offsets", "step {k}: {d}");
                }
                if n >= 2 {
                    ctx.nontrivial(d.as_bytes());
                }
            }
            (Ok(_), Some(_)) => return fail("bad-step-accepted", d),
            (Err(e), None) => return fail("good-steps-refused", format!("{e:?}: {d}")),
            (Err(e), Some((_, w))) => {
                ensure!((e == E::InstructionNotFound) == w.is_none(), "step-error", "{e:?}: {d}");
                ctx.label("refused");
                ctx.nontrivial(d.as_bytes());
            }
        }
        Ok(())
    });
    c.finish()
}
