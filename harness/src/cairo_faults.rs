//! Faults that turn a valid Cairo case into one that is not.
use crate::cairo::{self, to_u64, Cfg};
use crate::cairo_air::{col::*, *};
use crate::*;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;

pub fn small(src: &mut Src) -> Cfg {
    let c = Cfg { max_steps: 16, max_program: 16, max_output: 3, max_rc: 4, far: 12, max_room: 20, free_room: 60, fault: None };
    if src.chance(1, 4) {
        // few cells and offsets per step: most rows are steps
        Cfg { max_steps: 40, max_program: 8, max_output: 0, max_rc: 0, far: 4, ..c }
    } else {
        c
    }
}

pub fn case(src: &mut Src, cfg: &Cfg) -> Option<Case> {
    let run = cairo::generate(src, cfg);
    let mut pubs = guard(|| run.public()).ok()?;
    // whether honest executions can be proved is another property
    let t = guard(|| build_main_trace(&run.registers(), &run.memory(), &mut pubs)).ok()?;
    pubs.range_check_min?;
    Some(Case { main: t.rows(), st: Statement::new(pubs, AuxPlan::Reference), run })
}

/// A row of the trace on which the instruction constraints do not apply.
pub fn idle(src: &mut Src, c: &Case) -> usize {
    let (e, n) = (c.run.steps.len(), c.n());
    match src.upto(3) {
        0 => n - 1,
        1 => e - 1,
        _ => src.usize(e - 1, n - 1),
    }
}

/// Position in a list of `len`, with a bias to its ends; at least `lo`.
pub fn position(src: &mut Src, lo: usize, len: usize) -> usize {
    match src.upto(4) {
        0 | 1 => len - 1 - src.usize(0, 7.min(len - 1 - lo)),
        2 => lo + src.usize(0, 5.min(len - 1 - lo)),
        _ => src.usize(lo, len - 1),
    }
}

pub fn known(src: &mut Src, c: &Case) -> (FE, FE) {
    let r = src.usize(0, c.run.steps.len() - 1);
    let (a, v) = *src.pick(&ACCESS);
    (c.main[r][a].clone(), c.main[r][v].clone())
}

pub const KINDS: u64 = 15;

/// Turn a valid case into one that is not; None when the fault does not apply.
pub fn fault(src: &mut Src, c: &mut Case) -> Option<(&'static str, String)> {
    let e = c.run.steps.len();
    let n = c.n();
    let selected = |src: &mut Src| (e >= 2).then(|| position(src, 0, e - 1));
    match src.upto(KINDS - 1) {
        0 => {
            let (r, k) = (idle(src, c), src.usize(0, 15));
            let v = if k == 15 || src.bool() { fe_uniform(src) } else { FE::from(2u64) };
            c.main[r][k] = v;
            Some(("flag", format!("flag {k} of row {r}")))
        }
        1 => {
            let r = selected(src)?;
            let pc = c.main[r][PC].clone();
            let old = c.main[r][INST].clone();
            let new = match src.upto(2) {
                0 => old + FE::from(1u64 << src.upto(62)),
                1 => old - FE::from(1u64 << src.upto(62)),
                _ => old + FE::from(2u64).pow(63 + src.upto(70)),
            };
            c.poke(&pc, &new);
            Some(("word", format!("instruction word at the pc of row {r}")))
        }
        2 => {
            let r = selected(src)?;
            let k = src.usize(1, 3);
            let a = c.main[r][ACCESS[k].0].clone();
            let v = fe_other(src, &c.main[r][ACCESS[k].1].clone());
            c.poke(&a, &v);
            for q in 0..e {
                if (1..4).any(|k| c.main[q][ACCESS[k].0] == a) {
                    c.derive(q);
                }
            }
            Some(("memory value", format!("value read as operand {k} of row {r}")))
        }
        3 => {
            if e < 2 {
                return None;
            }
            let r = e - 1;
            let what = match src.upto(2) {
                0 => {
                    c.main[r][AP] = fe_other(src, &c.main[r][AP].clone());
                    c.st.pubs.ap_final = c.main[r][AP].clone();
                    "ap"
                }
                1 => {
                    c.main[r][FP] = fe_other(src, &c.main[r][FP].clone());
                    "fp"
                }
                _ => {
                    let mut a: Vec<(FE, FE)> =
                        c.st.pubs.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
                    a.sort_by_key(|x| x.0.representative());
                    let (a, v) = src.pick(&a).clone();
                    c.main[r][PC] = a.clone();
                    c.main[r][INST] = v;
                    c.st.pubs.pc_final = a;
                    "pc"
                }
            };
            Some(("last registers", format!("{what} of the last step")))
        }
        4 => {
            let r = selected(src)?;
            let k = *src.pick(&[RES, T0, T1, MUL]);
            c.main[r][k] = fe_other(src, &c.main[r][k].clone());
            if src.bool() {
                let row = &mut c.main[r];
                row[T1] = &row[T0] * &row[RES];
            }
            Some(("derived cell", format!("cell ({r},{k})")))
        }
        5 => {
            let spare = c.spare();
            if spare.is_empty() {
                return None;
            }
            let last = c.largest_address();
            let top = &last + FE::from(2 + src.upto(2));
            // with the value below the gap nothing else is wrong
            let below = c.main.iter().flat_map(|r| ACCESS.map(|(a, v)| (&r[a], &r[v]))).find(|x| *x.0 == last).map(|x| x.1.clone());
            let v = if src.chance(1, 4) { fe(src) } else { below.unwrap_or_else(FE::zero) };
            let m = src.usize(1, spare.len().min(9));
            for s in spare.iter().rev().take(m) {
                c.park(*s, top.clone(), v.clone());
            }
            Some(("address gap", format!("{m} accesses above a gap")))
        }
        6 => {
            let spare = c.spare();
            if spare.is_empty() {
                return None;
            }
            let (mut a, mut v) = known(src, c);
            let mut m = src.usize(1, spare.len().min(3));
            if src.bool() {
                // at the end of the sorted accesses
                a = c.largest_address();
                v = c.main.iter().flat_map(|r| ACCESS.map(|(x, y)| (&r[x], &r[y]))).find(|x| *x.0 == a).map(|x| x.1.clone())?;
                m = src.usize(1, spare.len().min(9));
            }
            let v = fe_other(src, &v);
            for s in spare.iter().rev().take(m) {
                c.park(*s, a.clone(), v.clone());
            }
            Some(("two values", format!("another value at address {}", short(&a))))
        }
        7 | 8 => {
            // a false claim about the public memory, or an access that is not in the sorted list
            let t = position(src, 1, 4 * n);
            let what = if src.bool() {
                c.st.shadow = Some(c.st.pubs.clone());
                let mut a: Vec<FE> = c.st.pubs.public_memory.keys().cloned().collect();
                a.sort_by_key(|x| x.representative());
                let a = src.pick(&a).clone();
                let v = c.st.pubs.public_memory[&a].clone();
                c.st.pubs.public_memory.insert(a, fe_other(src, &v));
                "claimed public memory differs"
            } else {
                "product closed"
            };
            c.st.plan = AuxPlan::CloseMemory(t);
            Some(("memory product", format!("{what}, product changed at access {t}")))
        }
        9 => {
            let (r, k) = (idle(src, c), src.usize(0, 2));
            let top = c.st.pubs.range_check_max? as u64;
            let low = c.st.pubs.range_check_min? as u64;
            let v = match src.upto(2) {
                0 => top + 2 + src.upto(2),
                1 if low >= 2 => low - 2,
                _ => 0x10000 + src.upto(9),
            };
            c.main[r][OFF + k] = FE::from(v);
            // several cells beyond the gap, so that it can lie between any two of the sorted cells
            for j in 0..if src.bool() { src.usize(1, 8) } else { 0 } {
                let (r, k) = (idle(src, c), src.usize(0, 2));
                c.main[r][OFF + k] = FE::from(v + if v > top && j % 3 == 2 { 1 } else { 0 });
            }
            let v = if v > top { c.main.iter().flat_map(|r| [to_u64(&r[OFF]), to_u64(&r[OFF + 1]), to_u64(&r[OFF + 2])]).flatten().max().unwrap_or(v) } else { v };
            if v > top {
                c.st.pubs.range_check_max = Some(v as u16);
            } else {
                c.st.pubs.range_check_min = Some(v as u16);
            }
            if v < 0x10000 && src.bool() {
                c.st.plan = AuxPlan::Crate;
            }
            Some(("offset gap", format!("offset {k} of row {r} is {v}")))
        }
        10 => {
            let (r, k) = (idle(src, c), src.usize(0, 2));
            let t = position(src, 0, 3 * n);
            let v = FE::from(c.st.pubs.range_check_max? as u64 + 1 + src.upto(70000));
            c.main[r][OFF + k] = v.clone();
            c.st.plan = AuxPlan::CloseOffsets(t);
            Some(("offset product", format!("offset {k} of row {r} is {}, product changed at {t}", short(&v))))
        }
        11 => {
            if !has_rc(&c.st.pubs) {
                return None;
            }
            let (r, k) = (position(src, 0, n), src.usize(0, 8));
            let k = LIMB + k;
            c.main[r][k] = fe_other(src, &c.main[r][k].clone());
            Some(("builtin", format!("cell ({r},{k})")))
        }
        12 => {
            let p = &mut c.st.pubs;
            let what = match src.upto(5) {
                0 => {
                    p.pc_init = fe_other(src, &p.pc_init.clone());
                    "initial pc"
                }
                1 => {
                    p.ap_init = fe_other(src, &p.ap_init.clone());
                    "initial ap"
                }
                2 => {
                    p.pc_final = fe_other(src, &p.pc_final.clone());
                    "final pc"
                }
                3 => {
                    p.ap_final = fe_other(src, &p.ap_final.clone());
                    "final ap"
                }
                4 => {
                    p.range_check_min = p.range_check_min.map(|x| x ^ 1 << src.upto(15));
                    "smallest offset"
                }
                _ => {
                    p.range_check_max = p.range_check_max.map(|x| x ^ 1 << src.upto(15));
                    "largest offset"
                }
            };
            Some(("claim", what.to_string()))
        }
        _ => {
            // read from somewhere else
            let r = selected(src)?;
            let spare = c.spare();
            let slot = *spare.last()?;
            let k = src.usize(1, 3);
            let (a, v) = known(src, c);
            let (ca, cv) = ACCESS[k];
            let (oa, ov) = (c.main[r][ca].clone(), c.main[r][cv].clone());
            c.park(slot, oa, ov);
            c.main[r][ca] = a;
            c.main[r][cv] = v;
            c.derive(r);
            Some(("operand address", format!("operand {k} of row {r} read elsewhere")))
        }
    }
}

/// A machine that leaves its rules once.
pub fn wrong_machine(src: &mut Src, cfg: &Cfg) -> Option<(Case, String)> {
    let k = src.usize(0, cfg.max_steps / 2);
    let reg = src.upto(2) as u8;
    let d = src.range(1, 4) as i64;
    let d = if src.bool() { d } else { -d };
    let mut cfg = cfg.clone();
    cfg.fault = Some((k, reg, d));
    let c = case(src, &cfg)?;
    (c.run.steps.len() > k + 1).then(|| (c, format!("{} off by {d} after step {k}", ["pc", "ap", "fp"][reg as usize])))
}

/// Long executions of large programs with much output.
pub fn large(src: &mut Src) -> Cfg {
    let far = *src.pick(&[40u64, 300, 2000]);
    Cfg { far, max_steps: 700, max_program: 600, max_output: 60, max_rc: 60, max_room: 600, free_room: 4000, fault: None }
}

pub fn faulty(src: &mut Src, ctx: &mut Ctx) -> Option<(Case, String)> {
    let cfg = small(src);
    faulty_in(src, ctx, cfg)
}

pub fn faulty_in(src: &mut Src, ctx: &mut Ctx, cfg: Cfg) -> Option<(Case, String)> {
    if src.chance(1, 8) {
        let (c, w) = wrong_machine(src, &cfg)?;
        ctx.label("fault: machine");
        return Some((c, w));
    }
    let mut c = case(src, &cfg)?;
    let (kind, w) = fault(src, &mut c)?;
    ctx.label(format!("fault: {kind}"));
    Some((c, w))
}


/// Values a careless implementation might take for a challenge.
pub fn guess(src: &mut Src) -> FE {
    match src.upto(6) {
        0 => FE::zero(),
        1 | 2 => FE::one(),
        3 => -FE::one(),
        4 => FE::from(2u64),
        5 => FE::from(2u64).pow(src.upto(64)),
        _ => FE::from(src.upto(100)),
    }
}

/// A false execution which fits one particular value of a challenge.
pub fn guessing(src: &mut Src, c: &mut Case) -> Option<(&'static str, String)> {
    let g = guess(src);
    if src.bool() {
        // two values at one address: with alpha = g the pair (a, v+d), (b, w) cannot be told from (a, v), (b, w+d)
        let spare = c.spare();
        if spare.len() < 2 {
            return None;
        }
        let (a, v) = known(src, c);
        let d = fe_nonzero(src);
        let b = c.largest_address() + FE::one();
        let w = if g == FE::zero() { fe(src) } else { (&a - &b) * g.inv() + &v };
        c.park(spare[spare.len() - 1], a.clone(), &v + &d);
        c.park(spare[spare.len() - 2], b.clone(), w.clone());
        c.st.disguise.accesses = vec![((a.clone(), &v + &d), (a, v)), ((b.clone(), w.clone()), (b, w + d))];
        Some(("memory challenge", format!("memory fits alpha = {}", short(&g))))
    } else {
        // an offset out of range, and another one which makes up for it when the challenge is g
        let n = c.n();
        let e = c.run.steps.len();
        if n < e + 1 {
            return None;
        }
        let (lo, hi) = (c.st.pubs.range_check_min? as u64, c.st.pubs.range_check_max? as u64);
        let (r, k) = (src.usize(e, n - 1), src.usize(0, 1));
        let bad = FE::from(0x10000 + src.upto(1 << 20));
        if bad == g {
            return None;
        }
        let (s, t) = (FE::from(src.range(lo, hi)), FE::from(src.range(lo, hi)));
        let other = &g - (&g - &s) * (&g - &t) * (&g - &bad).inv();
        c.main[r][OFF + k] = bad.clone();
        c.main[r][OFF + k + 1] = other.clone();
        c.st.disguise.offsets = vec![(bad, s), (other, t)];
        Some(("offset challenge", format!("offsets fit z = {}", short(&g))))
    }
}
