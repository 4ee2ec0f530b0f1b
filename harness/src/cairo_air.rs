//! The Cairo constraint system, written again from the whitepaper (section 9), frames and
//! traces that break it in chosen places, and a wrapper whose prover can lie in the
//! auxiliary columns.
use crate::cairo::{Instr, Run};
use crate::{fe, fe_nonzero, fe_other, fe_uniform, F, FE};
use engine::Src;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::{CairoAIR, CairoRAPChallenges, MemorySegment, PublicInputs};
use lambdaworks_stark::starks::{
    constraints::boundary::BoundaryConstraints, context::AirContext, frame::Frame, proof::options::ProofOptions,
    trace::TraceTable, traits::AIR,
};

pub mod col {
    pub const RES: usize = 16;
    pub const AP: usize = 17;
    pub const FP: usize = 18;
    pub const PC: usize = 19;
    /// dst, op0, op1
    pub const ADDR: usize = 20;
    pub const INST: usize = 23;
    pub const VAL: usize = 24;
    pub const OFF: usize = 27;
    pub const T0: usize = 30;
    pub const T1: usize = 31;
    pub const MUL: usize = 32;
    pub const SELECTOR: usize = 33;
    pub const LIMB: usize = 34;
    pub const RC_VALUE: usize = 42;
}
use col::*;

/// Columns of the four memory accesses of a row.
pub const ACCESS: [(usize, usize); 4] = [(PC, INST), (ADDR, VAL), (ADDR + 1, VAL + 1), (ADDR + 2, VAL + 2)];

pub const NAMES: [&str; 50] = [
    "flag 0", "flag 1", "flag 2", "flag 3", "flag 4", "flag 5", "flag 6", "flag 7", "flag 8", "flag 9", "flag 10",
    "flag 11", "flag 12", "flag 13", "flag 14", "flag 15", "instruction word", "dst address", "op0 address",
    "op1 address", "next ap", "next fp", "next pc (not taken)", "next pc", "t0", "t1", "mul", "res", "call pushes fp",
    "call pushes pc", "assert equal", "addresses 0-1", "addresses 1-2", "addresses 2-3", "addresses 3-0", "values 0-1",
    "values 1-2", "values 2-3", "values 3-0", "memory permutation 0", "memory permutation 1", "memory permutation 2",
    "memory permutation 3", "offsets 0-1", "offsets 1-2", "offsets 2-0", "offset permutation 0",
    "offset permutation 1", "offset permutation 2", "builtin limbs",
];

/// Rows at the end of the trace on which a transition does not apply.
pub fn exempt(i: usize) -> usize {
    match i {
        20..=23 | 34 | 38 | 42 | 45 => 1,
        // the last offset permutation step wraps around: the product ends in one
        _ => 0,
    }
}

#[derive(Clone)]
pub struct Ch {
    pub alpha: FE,
    pub z: FE,
    pub zr: FE,
}

impl Ch {
    pub fn draw(src: &mut Src) -> Ch {
        Ch { alpha: fe_uniform(src), z: fe_uniform(src), zr: fe_uniform(src) }
    }
    pub fn real(&self) -> CairoRAPChallenges {
        CairoRAPChallenges { alpha_memory: self.alpha.clone(), z_memory: self.z.clone(), z_range_check: self.zr.clone() }
    }
    pub fn of(c: &CairoRAPChallenges) -> Ch {
        Ch { alpha: c.alpha_memory.clone(), z: c.z_memory.clone(), zr: c.z_range_check.clone() }
    }
}

/// Auxiliary columns: 3 sorted offsets, 4 sorted addresses, 4 sorted values, 4 memory
/// products, 3 offset products.
pub struct Aux(pub usize);
impl Aux {
    pub fn off(&self) -> usize {
        self.0
    }
    pub fn addr(&self) -> usize {
        self.0 + 3
    }
    pub fn val(&self) -> usize {
        self.0 + 7
    }
    pub fn mem(&self) -> usize {
        self.0 + 11
    }
    pub fn rcp(&self) -> usize {
        self.0 + 15
    }
}

pub fn width(has_rc: bool) -> usize {
    if has_rc {
        43
    } else {
        34
    }
}

fn b(k: u32) -> FE {
    FE::from(2u64).pow(k)
}

/// Every constraint on two consecutive full rows.
pub fn frame_eval(c: &[FE], n: &[FE], ch: &Ch, has_rc: bool) -> Vec<FE> {
    let one = FE::one();
    let aux = Aux(width(has_rc));
    let mut v = Vec::with_capacity(50);
    for k in 0..15 {
        v.push(&c[k] * &c[k] - &c[k]);
    }
    v.push(c[15].clone());
    let s = &c[SELECTOR];
    let [dst_fp, op0_fp, imm, op1_fp, op1_ap, add, mul, abs, rel, jnz, ap_add, ap_one, call, ret, aeq] =
        std::array::from_fn(|k| c[k].clone());
    let mut word = FE::zero();
    for k in 0..15 {
        word = word + b(48 + k as u32) * &c[k];
    }
    for k in 0..3 {
        word = word + b(16 * k as u32) * &c[OFF + k];
    }
    v.push(s * (word - &c[INST]));
    let half = b(15);
    let sel = |f: &FE| f * &c[FP] + (&one - f) * &c[AP];
    v.push(s * (sel(&dst_fp) + &c[OFF] - &half - &c[ADDR]));
    v.push(s * (sel(&op0_fp) + &c[OFF + 1] - &half - &c[ADDR + 1]));
    let base = &imm * &c[PC] + &op1_ap * &c[AP] + &op1_fp * &c[FP] + (&one - &imm - &op1_ap - &op1_fp) * &c[VAL + 1];
    v.push(s * (base + &c[OFF + 2] - &half - &c[ADDR + 2]));
    let res = &c[RES];
    let after = &c[PC] + &imm + &one;
    v.push(s * (&c[AP] + &ap_add * res + &ap_one + &call * FE::from(2u64) - &n[AP]));
    v.push(s * (&ret * &c[VAL] + &call * (&c[AP] + FE::from(2u64)) + (&one - &ret - &call) * &c[FP] - &n[FP]));
    v.push(s * ((&c[T1] - &jnz) * (&n[PC] - &after)));
    let goal = (&one - &abs - &rel - &jnz) * &after + &abs * res + &rel * (&c[PC] + res);
    v.push(s * (&c[T0] * (&n[PC] - &c[PC] - &c[VAL + 2]) + (&one - &jnz) * &n[PC] - goal));
    v.push(s * (&jnz * &c[VAL] - &c[T0]));
    v.push(s * (&c[T0] * res - &c[T1]));
    let (op0, op1) = (&c[VAL + 1], &c[VAL + 2]);
    v.push(s * (&c[MUL] - op0 * op1));
    v.push(
        s * (&add * (op0 + op1) + &mul * &c[MUL] + (&one - &add - &mul - &jnz) * op1 - (&one - &jnz) * res),
    );
    v.push(s * (&call * (&c[VAL] - &c[FP])));
    v.push(s * (&call * (op0 - &after)));
    v.push(s * (&aeq * (&c[VAL] - res)));
    let step = |a: &FE, b: &FE| (b - a) * (b - a - &one);
    let pairs = |at: usize, k: usize, w: usize| if k + 1 < w { (&c[at + k], &c[at + k + 1]) } else { (&c[at + k], &n[at]) };
    for k in 0..4 {
        let (x, y) = pairs(aux.addr(), k, 4);
        v.push(step(x, y));
    }
    for k in 0..4 {
        let (x, y) = pairs(aux.addr(), k, 4);
        let (p, q) = pairs(aux.val(), k, 4);
        v.push((q - p) * (y - x - &one));
    }
    let term = |a: &FE, x: &FE| &ch.z - a - &ch.alpha * x;
    for k in 0..4 {
        let (p, q) = pairs(aux.mem(), k, 4);
        let (_, sa) = pairs(aux.addr(), k, 4);
        let (_, sv) = pairs(aux.val(), k, 4);
        let row = if k == 3 { n } else { c };
        let (a, x) = ACCESS[(k + 1) % 4];
        v.push(term(sa, sv) * q - term(&row[a], &row[x]) * p);
    }
    for k in 0..3 {
        let (x, y) = pairs(aux.off(), k, 3);
        v.push(step(x, y));
    }
    for k in 0..3 {
        let (p, q) = pairs(aux.rcp(), k, 3);
        let (_, so) = pairs(aux.off(), k, 3);
        let row = if k == 2 { n } else { c };
        v.push((&ch.zr - so) * q - (&ch.zr - &row[OFF + (k + 1) % 3]) * p);
    }
    if has_rc {
        let mut x = FE::zero();
        for k in 0..8 {
            x = x + b(16 * k as u32) * &c[LIMB + k];
        }
        v.push(x - &c[RC_VALUE]);
    }
    v
}

/// An instruction with defined behaviour.
pub fn instruction(src: &mut Src) -> Instr {
    let off = |src: &mut Src| match src.upto(3) {
        0 => src.upto(16) as i32 - 8,
        1 => *src.pick(&[-0x8000, 0x7fff, -1, 0]),
        _ => src.upto(0xffff) as i32 - 0x8000,
    };
    let mut i = Instr {
        off: [off(src), off(src), off(src)],
        dst_fp: src.bool(),
        op0_fp: src.bool(),
        op1: *src.pick(&[0, 1, 2, 4]),
        res: src.upto(2) as u8,
        pc: *src.pick(&[0, 0, 1, 2, 4]),
        ap: src.upto(2) as u8,
        op: *src.pick(&[0, 0, 1, 2, 4, 4]),
    };
    if i.pc == 4 {
        i.res = 0;
        i.op = 0;
        if i.ap == 1 {
            i.ap = 2;
        }
    }
    if i.op == 1 {
        i.ap = 0;
    }
    i
}

pub struct FrameCase {
    pub curr: Vec<FE>,
    pub next: Vec<FE>,
    pub ch: Ch,
    pub has_rc: bool,
    pub what: String,
}

impl FrameCase {
    pub fn frame(&self) -> Frame<F> {
        let w = self.curr.len();
        let mut d = self.curr.clone();
        d.extend(self.next.iter().cloned());
        Frame::new(d, w)
    }
}

/// Two consecutive rows which satisfy every constraint except `broken` (if any).
pub fn frame(src: &mut Src, broken: Option<usize>) -> FrameCase {
    let has_rc = broken == Some(49) || src.bool();
    let delta = fe_nonzero(src);
    let at = |k: usize, v: FE| if broken == Some(k) { v + &delta } else { v };
    let w = width(has_rc);
    let aux = Aux(w);
    let mut c: Vec<FE> = vec![FE::zero(); w + 18];
    let mut n: Vec<FE> = (0..w + 18).map(|_| fe(src)).collect();
    let ch = Ch::draw(src);
    let mut i = instruction(src);
    let one = FE::one();
    // an instruction for which the broken constraint says something
    let mut variant = 0;
    match broken {
        Some(22) => {
            i = Instr { pc: 4, res: 0, op: 0, ap: 2 * src.upto(1) as u8, ..i };
        }
        Some(23) => {
            if i.pc == 4 {
                i.pc = src.upto(2) as u8
            }
            variant = src.upto(3);
            if variant == 0 {
                i = Instr { pc: 4, res: 0, op: 0, ap: 0, ..i };
            }
        }
        Some(24) | Some(25) => {
            i = Instr { pc: 4, res: 0, op: 0, ap: 2 * src.upto(1) as u8, ..i };
            variant = src.upto(2);
            if variant == 2 {
                i.pc = 0;
            }
        }
        Some(27) if i.pc == 4 => i.pc = src.upto(2) as u8,
        Some(28) | Some(29) => i = Instr { op: 1, ap: 0, pc: *src.pick(&[0, 1, 2]), ..i },
        Some(30) => i = Instr { op: 4, pc: *src.pick(&[0, 1, 2]), ..i },
        _ => {}
    }
    let off = i.off;
    if i.pc == 4 && i.op == 1 {
        i.op = 0;
    }
    let _ = off;
    for k in 0..16 {
        c[k] = FE::from(i.flags() >> k & 1);
    }
    c[SELECTOR] = match src.upto(5) {
        // rows on which no instruction is executed keep every other constraint
        0 if !broken.is_some_and(|k| (16..31).contains(&k)) => FE::zero(),
        1 => fe_nonzero(src),
        _ => one.clone(),
    };
    for k in 0..3 {
        c[OFF + k] = FE::from(i.biased()[k]);
    }
    for k in [AP, FP, PC] {
        c[k] = if src.bool() { FE::from(src.range(1, 100_000)) } else { fe(src) };
    }
    let mut word = FE::zero();
    for k in 0..15 {
        word = word + b(48 + k as u32) * &c[k];
    }
    for k in 0..3 {
        word = word + b(16 * k as u32) * &c[OFF + k];
    }
    c[INST] = at(16, word);
    let size = FE::from(i.size());
    let after = &c[PC] + &size;
    c[VAL + 1] = if i.op == 1 { at(29, after.clone()) } else { fe(src) };
    c[VAL + 2] = fe(src);
    let half = b(15);
    c[ADDR] = at(17, if i.dst_fp { &c[FP] } else { &c[AP] } + &c[OFF] - &half);
    c[ADDR + 1] = at(18, if i.op0_fp { &c[FP] } else { &c[AP] } + &c[OFF + 1] - &half);
    let base = match i.op1 {
        0 => c[VAL + 1].clone(),
        1 => c[PC].clone(),
        2 => c[FP].clone(),
        _ => c[AP].clone(),
    };
    c[ADDR + 2] = at(19, base + &c[OFF + 2] - &half);
    c[MUL] = at(26, &c[VAL + 1] * &c[VAL + 2]);
    c[RES] = at(
        27,
        match i.res {
            0 => c[VAL + 2].clone(),
            1 => &c[VAL + 1] + &c[VAL + 2],
            _ => c[MUL].clone(),
        },
    );
    c[VAL] = match i.op {
        1 => at(28, c[FP].clone()),
        4 => at(30, c[RES].clone()),
        _ => fe(src),
    };
    let pc = if i.pc == 4 {
        // taken or not taken
        let taken = match (broken, variant) {
            (Some(22), _) => false,
            (Some(23), _) => true,
            (Some(24), 0) => false,
            (Some(24), _) | (Some(25), _) => true,
            _ => src.bool(),
        };
        c[VAL] = if taken { fe_nonzero(src) } else { FE::zero() };
        c[RES] = if taken { c[VAL].inv() } else { fe(src) };
        c[T0] = c[VAL].clone();
        let target = &c[PC] + &c[VAL + 2];
        match (broken, variant) {
            // jump although the condition is zero
            (Some(22), _) => {
                let mut d = delta.clone();
                if d == FE::zero() {
                    d = one.clone();
                }
                c[T1] = FE::zero();
                &after + d
            }
            // taken, to another place
            (Some(23), _) => {
                c[T1] = one.clone();
                target + &delta
            }
            // the condition is not zero but the jump is not taken
            (Some(24), 0) => {
                c[VAL] = fe_nonzero(src);
                c[T0] = FE::zero();
                c[T1] = FE::zero();
                after.clone()
            }
            // the condition is zero but the jump is taken
            (Some(24), _) => {
                c[VAL] = FE::zero();
                c[T0] = fe_nonzero(src);
                c[RES] = c[T0].inv();
                c[T1] = one.clone();
                target
            }
            (Some(25), _) => {
                c[RES] = fe_other(src, &c[RES].clone());
                c[T1] = one.clone();
                target
            }
            _ => {
                c[T1] = &c[T0] * &c[RES];
                if taken {
                    target
                } else {
                    after.clone()
                }
            }
        }
    } else {
        let p = match i.pc {
            0 => after.clone(),
            1 => c[RES].clone(),
            _ => &c[PC] + &c[RES],
        };
        match broken {
            // t0 on a plain instruction: harmless only if the operand is the instruction size
            Some(24) => {
                c[VAL + 2] = size.clone();
                c[MUL] = &c[VAL + 1] * &c[VAL + 2];
                c[RES] = c[VAL + 2].clone();
                c[T0] = delta.clone();
                c[T1] = &c[T0] * &c[RES];
            }
            Some(25) => c[T1] = delta.clone(),
            _ => {}
        }
        at(23, p)
    };
    n[PC] = pc;
    n[AP] = at(
        20,
        match (i.op, i.ap) {
            (1, _) => &c[AP] + FE::from(2u64),
            (_, 1) => &c[AP] + &c[RES],
            (_, 2) => &c[AP] + &one,
            _ => c[AP].clone(),
        },
    );
    n[FP] = at(
        21,
        match i.op {
            1 => &c[AP] + FE::from(2u64),
            2 => c[VAL].clone(),
            _ => c[FP].clone(),
        },
    );
    // sorted memory
    let mut a = fe(src);
    let mut x = fe(src);
    let mut sorted = vec![(a.clone(), x.clone())];
    for k in 0..4 {
        let wrong_a = broken == Some(31 + k);
        let wrong_v = broken == Some(35 + k);
        let stay = src.bool() || wrong_v;
        if wrong_a {
            // a step which is neither zero nor one, with equal values
            let d = match src.upto(3) {
                0 => FE::zero() - &one,
                1 => FE::from(src.range(2, 9)),
                _ => fe(src),
            };
            a = a + if d == FE::zero() || d == one { FE::from(2u64) } else { d };
        } else if stay {
            if wrong_v {
                x = fe_other(src, &x);
            }
        } else {
            a = a + &one;
            x = fe(src);
        }
        sorted.push((a.clone(), x.clone()));
    }
    for k in 0..4 {
        c[aux.addr() + k] = sorted[k].0.clone();
        c[aux.val() + k] = sorted[k].1.clone();
    }
    n[aux.addr()] = sorted[4].0.clone();
    n[aux.val()] = sorted[4].1.clone();
    let term = |a: &FE, x: &FE| &ch.z - a - &ch.alpha * x;
    let mut p = fe_nonzero(src);
    for k in 0..4 {
        c[aux.mem() + k] = p.clone();
        let (ai, xi) = ACCESS[(k + 1) % 4];
        let row = if k == 3 { &n } else { &c };
        let den = term(&sorted[k + 1].0, &sorted[k + 1].1);
        let num = term(&row[ai], &row[xi]);
        p = at(39 + k, p * num * if den == FE::zero() { one.clone() } else { den.inv() });
    }
    n[aux.mem()] = p;
    // sorted offsets
    let mut o = FE::from(src.upto(0xffff));
    let mut so = vec![o.clone()];
    for k in 0..3 {
        if broken == Some(43 + k) {
            let d = match src.upto(3) {
                0 => FE::zero() - &one,
                1 => FE::from(src.range(2, 9)),
                _ => fe(src),
            };
            o = o + if d == FE::zero() || d == one { FE::from(2u64) } else { d };
        } else if src.bool() {
            o = o + &one;
        }
        so.push(o.clone());
    }
    let mut p = fe_nonzero(src);
    for k in 0..3 {
        c[aux.off() + k] = so[k].clone();
        c[aux.rcp() + k] = p.clone();
        let row = if k == 2 { &n } else { &c };
        let num = &ch.zr - &row[OFF + (k + 1) % 3];
        p = at(46 + k, p * num * (&ch.zr - &so[k + 1]).inv());
    }
    n[aux.off()] = so[3].clone();
    n[aux.rcp()] = p;
    if has_rc {
        let mut v = FE::zero();
        for k in 0..8 {
            c[LIMB + k] = if src.chance(1, 3) { FE::zero() } else { FE::from(src.upto(0xffff)) };
            v = v + b(16 * k as u32) * &c[LIMB + k];
        }
        c[RC_VALUE] = at(49, v);
    }
    match broken {
        Some(k @ 0..=14) => {
            // no other constraint looks at the flags of a row which is not selected
            c[SELECTOR] = if src.chance(3, 4) { FE::zero() } else { one.clone() };
            c[k] = if src.bool() { FE::from(2u64) } else { fe_uniform(src) };
        }
        Some(15) => c[15] = if src.bool() { one } else { fe_nonzero(src) },
        None if src.chance(1, 5) => c[SELECTOR] = FE::zero(),
        _ => {}
    }
    FrameCase {
        curr: c,
        next: n,
        ch,
        has_rc,
        what: format!("{} {:?}, {}", i.kind(), i, broken.map_or("nothing broken".to_string(), |k| format!("broken: {}", NAMES[k]))),
    }
}

// ---------------------------------------------------------------------------------------

/// How the auxiliary columns are built.
#[derive(Clone, Debug, PartialEq)]
pub enum AuxPlan {
    /// by the crate
    Crate,
    /// by the reference
    Reference,
    /// the memory product is multiplied from access t on so that it ends where the public memory says
    CloseMemory(usize),
    /// the offset product is multiplied from access t on so that it ends in one
    CloseOffsets(usize),
    /// the memory product is zero everywhere
    Vanish,
}

/// The statement a (possibly lying) prover works with.
#[derive(Clone)]
pub struct Statement {
    pub pubs: PublicInputs,
    pub plan: AuxPlan,
    /// the public memory the sorted columns are built from, if not the claimed one
    pub shadow: Option<PublicInputs>,
    pub disguise: Disguise,
}

/// Entries which appear as something else in the sorted columns.
#[derive(Clone, Debug, Default)]
pub struct Disguise {
    pub accesses: Vec<((FE, FE), (FE, FE))>,
    pub offsets: Vec<(FE, FE)>,
}

impl Statement {
    pub fn new(pubs: PublicInputs, plan: AuxPlan) -> Statement {
        Statement { pubs, plan, shadow: None, disguise: Disguise::default() }
    }
}

pub fn has_rc(p: &PublicInputs) -> bool {
    p.memory_segments.contains_key(&MemorySegment::RangeCheck)
}

/// Value the memory product has to end in.
pub fn memory_goal(p: &PublicInputs, ch: &Ch) -> FE {
    let mut den = FE::one();
    for (a, v) in &p.public_memory {
        den = den * (&ch.z - a - &ch.alpha * v);
    }
    ch.z.pow(p.public_memory.len()) * den.inv()
}

/// Addresses of the public memory in the order program, output.
fn public_cells(p: &PublicInputs) -> Vec<(FE, FE)> {
    let mut v: Vec<(FE, FE)> = p.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
    v.sort_by_key(|(a, _)| a.representative());
    v
}

pub fn build_aux(main: &[Vec<FE>], st: &Statement, ch: &Ch) -> Vec<Vec<FE>> {
    let (p, plan) = (&st.pubs, &st.plan);
    let n = main.len();
    let orig: Vec<(FE, FE)> = main.iter().flat_map(|r| ACCESS.map(|(a, v)| (r[a].clone(), r[v].clone()))).collect();
    let mut sorted = orig.clone();
    let public = public_cells(st.shadow.as_ref().unwrap_or(p));
    let from = sorted.len().saturating_sub(public.len());
    sorted.truncate(from);
    sorted.extend(public.into_iter().take(4 * n - from));
    for (is, seems) in &st.disguise.accesses {
        if let Some(x) = sorted.iter_mut().find(|x| *x == is) {
            *x = seems.clone();
        }
    }
    sorted.sort_by_key(|(a, _)| a.representative());
    let term = |(a, v): &(FE, FE)| &ch.z - a - &ch.alpha * v;
    let mut den: Vec<FE> = sorted.iter().map(term).collect();
    FE::inplace_batch_inverse(&mut den);
    let mut acc = FE::one();
    let mut mem: Vec<FE> = orig
        .iter()
        .zip(&den)
        .map(|(o, d)| {
            acc = &acc * term(o) * d;
            acc.clone()
        })
        .collect();
    if *plan == AuxPlan::Vanish {
        mem.iter_mut().for_each(|x| *x = FE::zero());
    }
    if let AuxPlan::CloseMemory(t) = plan {
        let f = memory_goal(p, ch) * mem[4 * n - 1].inv();
        for v in mem.iter_mut().skip(*t) {
            *v = &*v * &f;
        }
    }
    let offs: Vec<FE> = main.iter().flat_map(|r| (0..3).map(|k| r[OFF + k].clone())).collect();
    let mut so = offs.clone();
    if let AuxPlan::CloseOffsets(_) = plan {
        // out of range offsets disguised as the largest one
        let top = FE::from(p.range_check_max.unwrap_or(0) as u64);
        for o in so.iter_mut() {
            if o.representative() > top.representative() {
                *o = top.clone();
            }
        }
    }
    for (is, seems) in &st.disguise.offsets {
        if let Some(x) = so.iter_mut().find(|x| *x == is) {
            *x = seems.clone();
        }
    }
    so.sort_by_key(|o| o.representative());
    let mut den: Vec<FE> = so.iter().map(|o| &ch.zr - o).collect();
    FE::inplace_batch_inverse(&mut den);
    let mut acc = FE::one();
    let mut rcp: Vec<FE> = offs
        .iter()
        .zip(&den)
        .map(|(o, d)| {
            acc = &acc * (&ch.zr - o) * d;
            acc.clone()
        })
        .collect();
    if let AuxPlan::CloseOffsets(t) = plan {
        let f = rcp[3 * n - 1].inv();
        for v in rcp.iter_mut().skip(*t) {
            *v = &*v * &f;
        }
    }
    (0..n)
        .map(|i| {
            let mut r = Vec::with_capacity(18);
            r.extend(so[3 * i..3 * i + 3].iter().cloned());
            r.extend(sorted[4 * i..4 * i + 4].iter().map(|x| x.0.clone()));
            r.extend(sorted[4 * i..4 * i + 4].iter().map(|x| x.1.clone()));
            r.extend(mem[4 * i..4 * i + 4].iter().cloned());
            r.extend(rcp[3 * i..3 * i + 3].iter().cloned());
            r
        })
        .collect()
}

/// What a full trace violates, by the reference: (constraint name, row).
pub fn violations(full: &[Vec<FE>], p: &PublicInputs, ch: &Ch) -> Vec<(String, usize)> {
    let n = full.len();
    let rc = has_rc(p);
    let aux = Aux(width(rc));
    let mut out = Vec::new();
    for i in 0..n {
        for (k, v) in frame_eval(&full[i], &full[(i + 1) % n], ch, rc).iter().enumerate() {
            // 48 at the last row only says that the product started where it should
            if *v != FE::zero() && i + exempt(k) < n {
                out.push((NAMES[k].to_string(), i));
            }
        }
    }
    let mut bound = |what: &str, row: usize, col: usize, v: FE| {
        if full[row][col] != v {
            out.push((what.to_string(), row));
        }
    };
    bound("initial pc", 0, PC, p.pc_init.clone());
    bound("initial ap", 0, AP, p.ap_init.clone());
    if p.num_steps >= 1 && p.num_steps <= n {
        bound("final pc", p.num_steps - 1, PC, p.pc_final.clone());
        bound("final ap", p.num_steps - 1, AP, p.ap_final.clone());
    }
    bound("memory product", n - 1, aux.mem() + 3, memory_goal(p, ch));
    bound("offset product", n - 1, aux.rcp() + 2, FE::one());
    bound("smallest offset", 0, aux.off(), FE::from(p.range_check_min.unwrap_or(0) as u64));
    bound("largest offset", n - 1, aux.off() + 2, FE::from(p.range_check_max.unwrap_or(0) as u64));
    out
}

/// The same question put to the crate's constraint system.
pub fn crate_violations(full: &[Vec<FE>], p: &PublicInputs, ch: &Ch, opts: &ProofOptions) -> Vec<(usize, usize)> {
    let n = full.len();
    let air = CairoAIR::new(n, p, opts);
    let ctx = air.context();
    let rap = ch.real();
    let w = full[0].len();
    let mut out = Vec::new();
    for i in 0..n {
        let mut d = full[i].clone();
        d.extend(full[(i + 1) % n].iter().cloned());
        for (k, v) in air.compute_transition(&Frame::new(d, w), &rap).iter().enumerate() {
            if *v != FE::zero() && i + ctx.transition_exemptions[k] < n {
                out.push((k, i));
            }
        }
    }
    out.extend(crate_boundary(full, p, ch, opts));
    out
}

/// Only the boundary values, of the columns that are there.
pub fn crate_boundary(full: &[Vec<FE>], p: &PublicInputs, ch: &Ch, opts: &ProofOptions) -> Vec<(usize, usize)> {
    let n = full.len();
    let w = full[0].len();
    let air = CairoAIR::new(n, p, opts);
    let mut out = Vec::new();
    for (k, c) in air.boundary_constraints(&ch.real()).constraints.iter().enumerate() {
        if c.step < n && c.col < w && full[c.step][c.col] != c.value {
            out.push((1000 + k, c.step));
        }
    }
    out
}

pub fn join(main: &[Vec<FE>], aux: Vec<Vec<FE>>) -> Vec<Vec<FE>> {
    main.iter()
        .zip(aux)
        .map(|(m, a)| {
            let mut r = m.clone();
            r.extend(a);
            r
        })
        .collect()
}

pub fn table(main: &[Vec<FE>]) -> TraceTable<F> {
    TraceTable::new(main.concat(), main[0].len())
}

/// CairoAIR for everything but the auxiliary columns.
#[derive(Clone)]
pub struct Lying {
    inner: CairoAIR,
    st: Statement,
}

impl AIR for Lying {
    type Field = F;
    type RAPChallenges = CairoRAPChallenges;
    type PublicInputs = Statement;

    fn new(n: usize, st: &Statement, opts: &ProofOptions) -> Self {
        Lying { inner: CairoAIR::new(n, &st.pubs, opts), st: st.clone() }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, rap: &CairoRAPChallenges) -> TraceTable<F> {
        if self.st.plan == AuxPlan::Crate {
            return self.inner.build_auxiliary_trace(main, rap);
        }
        table(&build_aux(&main.rows(), &self.st, &Ch::of(rap)))
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> CairoRAPChallenges {
        self.inner.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.inner.number_auxiliary_rap_columns()
    }
    fn compute_transition(&self, f: &Frame<F>, rap: &CairoRAPChallenges) -> Vec<FE> {
        self.inner.compute_transition(f, rap)
    }
    fn boundary_constraints(&self, rap: &CairoRAPChallenges) -> BoundaryConstraints<F> {
        self.inner.boundary_constraints(rap)
    }
    fn context(&self) -> &AirContext {
        self.inner.context()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.inner.composition_poly_degree_bound()
    }
    fn trace_length(&self) -> usize {
        self.inner.trace_length()
    }
    fn pub_inputs(&self) -> &Statement {
        &self.st
    }
}

// ---------------------------------------------------------------------------------------

/// A completed trace and what it claims to prove.
#[derive(Clone)]
pub struct Case {
    pub main: Vec<Vec<FE>>,
    pub st: Statement,
    pub run: Run,
}

impl Case {
    pub fn n(&self) -> usize {
        self.main.len()
    }
    /// Accesses (0,0) which do not stand for public memory.
    pub fn spare(&self) -> Vec<(usize, usize)> {
        let all = 4 * self.n();
        let end = all - self.st.pubs.public_memory.len().min(all);
        (0..end)
            .map(|k| (k / 4, k % 4))
            .filter(|(r, k)| {
                let (a, v) = ACCESS[*k];
                self.main[*r][SELECTOR] == FE::zero()
                    && *r >= self.run.steps.len()
                    && self.main[*r][a] == FE::zero()
                    && self.main[*r][v] == FE::zero()
            })
            .collect()
    }
    pub fn park(&mut self, slot: (usize, usize), a: FE, v: FE) {
        let (ca, cv) = ACCESS[slot.1];
        self.main[slot.0][ca] = a;
        self.main[slot.0][cv] = v;
    }
    /// Change what memory holds at an address in every access and in the public memory.
    pub fn poke(&mut self, a: &FE, v: &FE) {
        for r in self.main.iter_mut() {
            for (ca, cv) in ACCESS {
                if r[ca] == *a {
                    r[cv] = v.clone();
                }
            }
        }
        if let Some(x) = self.st.pubs.public_memory.get_mut(a) {
            *x = v.clone();
        }
    }
    /// Recompute the derived cells of a row from its operands.
    pub fn derive(&mut self, r: usize) {
        let row = &mut self.main[r];
        row[MUL] = &row[VAL + 1] * &row[VAL + 2];
        let one = FE::one();
        if row[9] == one {
            row[T0] = row[VAL].clone();
            row[RES] = if row[VAL] == FE::zero() { FE::zero() } else { row[VAL].inv() };
        } else {
            row[RES] = if row[5] == one {
                &row[VAL + 1] + &row[VAL + 2]
            } else if row[6] == one {
                row[MUL].clone()
            } else {
                row[VAL + 2].clone()
            };
            row[T0] = FE::zero();
        }
        row[T1] = &row[T0] * &row[RES];
    }
    pub fn full(&self, ch: &Ch, opts: &ProofOptions) -> Vec<Vec<FE>> {
        let aux = if self.st.plan == AuxPlan::Crate {
            let t = table(&self.main);
            let air = CairoAIR::new(self.n(), &self.st.pubs, opts);
            air.build_auxiliary_trace(&t, &ch.real()).rows()
        } else {
            build_aux(&self.main, &self.st, ch)
        };
        join(&self.main, aux)
    }
    pub fn largest_address(&self) -> FE {
        self.main
            .iter()
            .flat_map(|r| ACCESS.map(|(a, _)| r[a].clone()))
            .max_by_key(|a| a.representative())
            .unwrap()
    }
}
