//! Reference Cairo machine (whitepaper, section 4.5), a generator of valid executions,
//! and the trace rows the machine prescribes.
use crate::{fe, fe_uniform, FE};
use engine::Src;
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Instr {
    /// dst, op0, op1
    pub off: [i32; 3],
    pub dst_fp: bool,
    pub op0_fp: bool,
    /// 0 op0, 1 pc (immediate), 2 fp, 4 ap
    pub op1: u8,
    /// 0 op1, 1 add, 2 mul
    pub res: u8,
    /// 0 regular, 1 absolute jump, 2 relative jump, 4 conditional jump
    pub pc: u8,
    /// 0 regular, 1 add res, 2 add 1
    pub ap: u8,
    /// 0 none, 1 call, 2 ret, 4 assert equal
    pub op: u8,
}

impl Instr {
    pub fn flags(&self) -> u64 {
        self.dst_fp as u64
            | (self.op0_fp as u64) << 1
            | (self.op1 as u64) << 2
            | (self.res as u64) << 5
            | (self.pc as u64) << 7
            | (self.ap as u64) << 10
            | (self.op as u64) << 12
    }
    pub fn biased(&self) -> [u64; 3] {
        self.off.map(|o| (o + 0x8000) as u64)
    }
    pub fn word(&self) -> u64 {
        let b = self.biased();
        b[0] | b[1] << 16 | b[2] << 32 | self.flags() << 48
    }
    pub fn size(&self) -> u64 {
        if self.op1 == 1 {
            2
        } else {
            1
        }
    }
    pub fn kind(&self) -> &'static str {
        match (self.op, self.pc, self.ap) {
            (1, 1, _) => "call abs",
            (1, _, _) => "call rel",
            (2, _, _) => "ret",
            (4, _, _) => match (self.res, self.op1) {
                (0, 0) => "assert deref",
                (0, 1) => "assert immediate",
                (0, _) => "assert copy",
                (1, _) => "assert add",
                _ => "assert mul",
            },
            (_, 1, _) => "jmp abs",
            (_, 2, _) => "jmp rel",
            (_, 4, _) => "jnz",
            (_, _, 1) => "ap +=",
            _ => "nothing",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Regs {
    pub pc: u64,
    pub ap: u64,
    pub fp: u64,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub addr: [u64; 3],
    pub dst: FE,
    pub op0: FE,
    pub op1: FE,
    /// None when the machine does not use it (conditional jumps)
    pub res: Option<FE>,
    pub next: Regs,
}

pub fn to_u64(v: &FE) -> Option<u64> {
    let b = v.to_bytes_be();
    b[..24].iter().all(|x| *x == 0).then(|| u64::from_be_bytes(b[24..].try_into().unwrap()))
}

fn add_off(a: u64, o: i32) -> Result<u64, &'static str> {
    a.checked_add_signed(o as i64).ok_or("address out of range")
}

pub type Mem = BTreeMap<u64, FE>;

/// One step of the machine; Err if the state transition is not valid.
pub fn eval(i: &Instr, s: &Regs, mem: &Mem) -> Result<Step, &'static str> {
    let get = |a: u64| mem.get(&a).cloned().ok_or("unknown memory");
    let a_dst = add_off(if i.dst_fp { s.fp } else { s.ap }, i.off[0])?;
    let a_op0 = add_off(if i.op0_fp { s.fp } else { s.ap }, i.off[1])?;
    let dst = get(a_dst)?;
    let op0 = get(a_op0)?;
    let base = match i.op1 {
        0 => to_u64(&op0).ok_or("op0 is no address")?,
        1 => s.pc,
        2 => s.fp,
        4 => s.ap,
        _ => return Err("undefined op1 source"),
    };
    let a_op1 = add_off(base, i.off[2])?;
    let op1 = get(a_op1)?;
    let res = if i.pc == 4 {
        if i.res != 0 || i.op != 0 || i.ap == 1 {
            return Err("undefined jnz");
        }
        None
    } else {
        Some(match i.res {
            0 => op1.clone(),
            1 => &op0 + &op1,
            2 => &op0 * &op1,
            _ => return Err("undefined res"),
        })
    };
    let here = FE::from(s.pc);
    let after = s.pc + i.size();
    let pc = match i.pc {
        0 => FE::from(after),
        1 => res.clone().unwrap(),
        2 => here + res.clone().unwrap(),
        4 if dst == FE::zero() => FE::from(after),
        4 => here + &op1,
        _ => return Err("undefined pc update"),
    };
    let ap = match (i.op, i.ap) {
        (1, 0) => FE::from(s.ap + 2),
        (1, _) => return Err("undefined ap update of a call"),
        (_, 0) => FE::from(s.ap),
        (_, 1) => FE::from(s.ap) + res.clone().ok_or("no res")?,
        (_, 2) => FE::from(s.ap + 1),
        _ => return Err("undefined ap update"),
    };
    let fp = match i.op {
        0 => FE::from(s.fp),
        1 => {
            if op0 != FE::from(after) || dst != FE::from(s.fp) {
                return Err("call does not store pc and fp");
            }
            FE::from(s.ap + 2)
        }
        2 => dst.clone(),
        4 => {
            if res.as_ref() != Some(&dst) {
                return Err("assertion does not hold");
            }
            FE::from(s.fp)
        }
        _ => return Err("undefined opcode"),
    };
    let r = |v: FE| to_u64(&v).ok_or("register is no address");
    Ok(Step { addr: [a_dst, a_op0, a_op1], dst, op0, op1, res, next: Regs { pc: r(pc)?, ap: r(ap)?, fp: r(fp)? } })
}

/// The 34 main columns the machine prescribes for one step.
pub fn trace_row(i: &Instr, s: &Regs, t: &Step, selector: bool) -> Vec<FE> {
    let mut row = Vec::with_capacity(34);
    for k in 0..16 {
        row.push(FE::from(i.flags() >> k & 1));
    }
    let inv0 = |v: &FE| if *v == FE::zero() { FE::zero() } else { v.inv() };
    let res = t.res.clone().unwrap_or_else(|| inv0(&t.dst));
    row.push(res.clone());
    row.extend([s.ap, s.fp, s.pc, t.addr[0], t.addr[1], t.addr[2], i.word()].map(FE::from));
    row.extend([t.dst.clone(), t.op0.clone(), t.op1.clone()]);
    row.extend(i.biased().map(FE::from));
    let t0 = if i.pc == 4 { t.dst.clone() } else { FE::zero() };
    row.push(t0.clone());
    row.push(&t0 * &res);
    row.push(&t.op0 * &t.op1);
    row.push(if selector { FE::one() } else { FE::zero() });
    row
}

#[derive(Clone)]
pub struct Run {
    pub code: HashMap<u64, Instr>,
    pub mem: Mem,
    pub regs: Vec<Regs>,
    pub steps: Vec<(Instr, Step)>,
    pub program_len: u64,
    pub output: Option<Range<u64>>,
    pub rc: Option<Range<u64>>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_steps: usize,
    pub max_program: usize,
    pub max_output: usize,
    pub max_rc: usize,
    /// largest distance of a far operand
    pub far: u64,
    /// room of the execution segment when segments follow it
    pub max_room: u64,
    /// room of the execution segment otherwise
    pub free_room: u64,
    /// a machine that goes wrong: after this step add a constant to pc, ap or fp (0, 1, 2)
    pub fault: Option<(usize, u8, i64)>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_steps: 60, max_program: 60, max_output: 4, max_rc: 6, far: 40, max_room: 60, free_room: 800, fault: None }
    }
}

#[derive(Clone)]
struct Vm {
    code: HashMap<u64, Instr>,
    mem: Mem,
    s: Regs,
    regs: Vec<Regs>,
    steps: Vec<(Instr, Step)>,
    program_len: u64,
    limit: u64,
    depth: usize,
    rc: Range<u64>,
    fault: Option<(usize, u8, i64)>,
    /// room for the program runs out before the execution is long enough
    eager: bool,
}

impl Vm {
    fn value(&self, src: &mut Src) -> FE {
        match src.upto(5) {
            0 => FE::from(src.upto(2)),
            1 => FE::from(src.range(1, self.program_len + 20)),
            2 => fe(src),
            3 => FE::zero() - FE::from(src.range(1, 4)),
            4 => FE::from(src.upto(1000)),
            _ => fe_uniform(src),
        }
    }

    fn set(&mut self, src: &mut Src, a: u64, v: FE) {
        let v = if self.rc.contains(&a) { rc_value(src) } else { v };
        self.mem.insert(a, v);
    }

    /// Choose the unknown cells an instruction reads so that it is valid if possible.
    fn resolve(&mut self, src: &mut Src, i: &Instr, want: Option<FE>) -> Result<Step, &'static str> {
        let s = self.s;
        let ok = |a: u64, vm: &Vm| if a >= 1 && a <= vm.limit { Ok(a) } else { Err("address out of bounds") };
        let a_dst = ok(add_off(if i.dst_fp { s.fp } else { s.ap }, i.off[0])?, self)?;
        let a_op0 = ok(add_off(if i.op0_fp { s.fp } else { s.ap }, i.off[1])?, self)?;
        if i.op == 1 {
            if !self.mem.contains_key(&a_dst) {
                self.mem.insert(a_dst, FE::from(s.fp));
            }
            if !self.mem.contains_key(&a_op0) {
                self.mem.insert(a_op0, FE::from(s.pc + i.size()));
            }
        }
        if !self.mem.contains_key(&a_op0) {
            let v = if i.op1 == 0 {
                let lo = if src.chance(1, 5) { 1 } else { self.program_len + 1 };
                FE::from(src.range(lo, (s.ap + 8).min(self.limit).max(lo)))
            } else {
                self.value(src)
            };
            self.set(src, a_op0, v);
        }
        let op0 = self.mem[&a_op0].clone();
        let base = match i.op1 {
            0 => to_u64(&op0).ok_or("op0 is no address")?,
            1 => s.pc,
            2 => s.fp,
            _ => s.ap,
        };
        let a_op1 = ok(add_off(base, i.off[2])?, self)?;
        if !self.mem.contains_key(&a_op1) {
            let goal = match (&want, i.op) {
                (Some(w), _) => Some(w.clone()),
                (None, 4) => self.mem.get(&a_dst).cloned(),
                _ => None,
            };
            let v = match goal {
                Some(g) => match i.res {
                    0 => g,
                    1 => g - &op0,
                    _ if op0 != FE::zero() => g * op0.inv(),
                    _ => self.value(src),
                },
                None => self.value(src),
            };
            self.set(src, a_op1, v);
        }
        let op1 = self.mem[&a_op1].clone();
        if !self.mem.contains_key(&a_dst) {
            let v = if i.op == 4 {
                match i.res {
                    0 => op1,
                    1 => op0 + op1,
                    _ => op0 * op1,
                }
            } else if i.pc == 4 && src.bool() {
                FE::zero()
            } else {
                self.value(src)
            };
            if self.rc.contains(&a_dst) && !is_rc(&v) {
                return Err("value out of range");
            }
            self.mem.insert(a_dst, v);
        }
        let t = eval(i, &s, &self.mem)?;
        if let (Some(w), Some(r)) = (&want, &t.res) {
            if w != r {
                return Err("another target");
            }
        }
        if i.pc == 4 && want.is_some() && !self.can_go(t.next.pc) {
            return Err("another target");
        }
        if t.next.ap < s.ap || t.next.ap > self.limit.saturating_sub(4) || t.next.fp > self.limit {
            return Err("registers out of bounds");
        }
        Ok(t)
    }

    fn free(&self, a: u64, n: u64) -> bool {
        a >= 1 && a <= self.program_len && (a..a + n).all(|x| x <= self.program_len && !self.mem.contains_key(&x))
    }

    fn can_go(&self, pc: u64) -> bool {
        self.code.contains_key(&pc) || self.free(pc, 1)
    }

    /// Somewhere to jump to.
    fn target(&self, src: &mut Src, back: bool) -> Option<u64> {
        if back && !self.code.is_empty() && src.chance(if self.eager { 9 } else { 4 }, 10) {
            let mut known: Vec<u64> = self.code.keys().copied().collect();
            known.sort();
            return Some(*src.pick(&known));
        }
        let from = self.code.iter().map(|(a, i)| a + i.size()).max().unwrap_or(1).max(self.s.pc + 2);
        let t = from + src.upto(2);
        if self.eager && !self.free(t, 1) {
            let mut known: Vec<u64> = self.code.keys().copied().collect();
            known.sort();
            return (!known.is_empty()).then(|| *src.pick(&known));
        }
        self.free(t, 1).then_some(t)
    }

    /// Pick an instruction for the free cell at pc.
    fn synthesise(&mut self, src: &mut Src, cfg: &Cfg, back: bool) -> Option<(Instr, Step)> {
        for attempt in 0..24 {
            let saved = self.mem.clone();
            let near = |src: &mut Src| -> i32 {
                if cfg.far >= 10_000 && src.chance(1, 6) {
                    // close to the ends of the offset range
                    let d = cfg.far as i32 - if src.bool() { 0 } else { src.upto(99) as i32 };
                    if src.chance(1, 3) { -d } else { d.min(32_767) }
                } else if src.chance(1, 12) {
                    src.upto(2 * cfg.far) as i32 - cfg.far as i32
                } else {
                    src.upto(10) as i32 - 6
                }
            };
            let mut i = Instr {
                off: [near(src), near(src), near(src)],
                dst_fp: src.bool(),
                op0_fp: src.bool(),
                op1: *src.pick(&[0, 1, 1, 2, 4]),
                res: 0,
                pc: 0,
                ap: 0,
                op: 0,
            };
            let mut want = None;
            let weights = if self.eager && attempt < 12 { [1, 4, 4, 3, 4, 3, 1, 1, 1] } else { [10, 2, 2, 2, 3, 3, 2, 3, 1] };
            match src.weighted(&weights) {
                // assert equal
                0 => {
                    i.op = 4;
                    i.res = src.upto(2) as u8;
                    if src.chance(2, 3) {
                        // the usual: write at the top of the stack
                        i.dst_fp = false;
                        i.off[0] = 0;
                        i.ap = 2;
                    } else if src.chance(1, 3) {
                        i.ap = 2;
                    }
                }
                1 => {
                    i.pc = 1;
                    i.res = src.upto(2) as u8;
                    let Some(t) = self.target(src, back) else { continue };
                    want = Some(FE::from(t));
                    i.ap = if src.bool() { 2 } else { 0 };
                }
                2 => {
                    i.pc = 2;
                    i.res = src.upto(2) as u8;
                    let Some(t) = self.target(src, back) else { continue };
                    want = Some(FE::from(t) - FE::from(self.s.pc));
                    i.ap = if src.bool() { 2 } else { 0 };
                }
                // conditional jump
                3 | 4 => {
                    i.pc = 4;
                    i.op1 = *src.pick(&[1, 1, 1, 2, 4]);
                    let Some(t) = self.target(src, back) else { continue };
                    want = Some(FE::from(t) - FE::from(self.s.pc));
                    i.ap = if src.bool() { 2 } else { 0 };
                }
                // call
                5 => {
                    i = Instr { off: [0, 1, i.off[2]], dst_fp: false, op0_fp: false, op: 1, ..i };
                    i.op1 = *src.pick(&[1, 1, 1, 2]);
                    i.pc = src.range(1, 2) as u8;
                    let Some(t) = self.target(src, back) else { continue };
                    let t = FE::from(t);
                    want = Some(if i.pc == 1 { t } else { t - FE::from(self.s.pc) });
                }
                // return
                6 => {
                    if self.depth == 0 {
                        continue;
                    }
                    i = Instr { off: [-2, -1, -1], dst_fp: true, op0_fp: true, op1: 2, res: 0, pc: 1, ap: 0, op: 2 };
                }
                // ap += res
                7 => {
                    i.ap = 1;
                    i.res = src.upto(2) as u8;
                    i.op1 = if i.res == 0 { 1 } else { i.op1 };
                    let far = cfg.far >= 10_000 && src.chance(1, 2);
                    want = Some(FE::from(src.upto(if far { cfg.far } else { 4 })));
                }
                // nothing happens but the operands are read
                _ => {
                    i.res = src.upto(2) as u8;
                    i.ap = if src.bool() { 2 } else { 0 };
                }
            }
            if i.op1 == 1 {
                // other offsets from pc are defined too, but unusual
                i.off[2] = if src.chance(1, 20) { near(src) } else { 1 };
            }
            if attempt > 18 {
                i = Instr { off: [0, -1, 1], dst_fp: false, op0_fp: true, op1: 1, res: 0, pc: 0, ap: 2, op: 4 };
                want = None;
            }
            if !self.free(self.s.pc, i.size()) {
                if attempt > 18 {
                    return None;
                }
                continue;
            }
            self.mem.insert(self.s.pc, FE::from(i.word()));
            if let Ok(t) = self.resolve(src, &i, want) {
                if self.eager && attempt < 16 && t.next.pc != self.s.pc && !self.can_go(t.next.pc) {
                    self.mem = saved;
                    continue;
                }
                self.code.insert(self.s.pc, i.clone());
                // an immediate not read through op1 still belongs to the program
                return Some((i, t));
            }
            self.mem = saved;
        }
        None
    }

    fn take(&mut self, i: Instr, t: Step) {
        self.regs.push(self.s);
        match i.op {
            1 => self.depth += 1,
            2 => self.depth = self.depth.saturating_sub(1),
            _ => {}
        }
        self.s = t.next;
        if let Some((k, reg, d)) = self.fault {
            if k == self.steps.len() {
                let r = match reg {
                    0 => &mut self.s.pc,
                    1 => &mut self.s.ap,
                    _ => &mut self.s.fp,
                };
                *r = r.saturating_add_signed(d).max(1);
            }
        }
        self.steps.push((i, t));
    }

    fn prologue(&mut self, src: &mut Src, i: Instr) -> bool {
        if !self.free(self.s.pc, i.size()) {
            return false;
        }
        self.mem.insert(self.s.pc, FE::from(i.word()));
        match self.resolve(src, &i, None) {
            Ok(t) => {
                self.code.insert(self.s.pc, i.clone());
                self.take(i, t);
                true
            }
            Err(_) => false,
        }
    }
}

pub fn rc_value(src: &mut Src) -> FE {
    match src.upto(3) {
        0 => FE::from(src.edgy_u64()),
        1 => FE::zero(),
        2 => {
            // limbs at their extremes
            let mut v = FE::zero();
            for _ in 0..8 {
                v = v * FE::from(65536u64) + FE::from(*src.pick(&[0u64, 1, 0xffff, 0x8000]));
            }
            v
        }
        _ => FE::from(src.u64()) * FE::from(1u64 << 32) * FE::from(1u64 << 32) + FE::from(src.u64()),
    }
}

fn is_rc(v: &FE) -> bool {
    v.to_bytes_be()[..16].iter().all(|b| *b == 0)
}

/// A short execution whose offsets reach the ends of what an instruction can encode.
pub fn extremes(src: &mut Src) -> Run {
    let program_len = 14;
    let sp = program_len + 3;
    let mut vm = Vm {
        code: HashMap::new(),
        mem: Mem::new(),
        s: Regs { pc: 1, ap: sp, fp: sp },
        regs: vec![],
        steps: vec![],
        program_len,
        limit: 200_000,
        depth: 0,
        rc: 0..0,
        fault: None,
        eager: false,
    };
    vm.mem.insert(sp - 2, FE::from(3));
    vm.mem.insert(sp - 1, FE::from(5));
    let base = Instr { off: [-1, -1, 1], dst_fp: true, op0_fp: true, op1: 1, res: 0, pc: 0, ap: 0, op: 0 };
    for k in 0..src.usize(2, 5) {
        let mut i = base.clone();
        let mut want = None;
        if k == 0 {
            i.ap = 1;
            want = Some(FE::from(32_768 + src.upto(40_000)));
        } else {
            i = Instr { dst_fp: false, op0_fp: false, op: if src.bool() { 4 } else { 0 }, ..i };
            for (slot, o) in i.off.iter_mut().enumerate() {
                let end = *src.pick(&[-32_768, 32_767, 0, 1]);
                if slot < 2 || src.bool() {
                    *o = end;
                }
            }
            if i.off[2] != 1 {
                i.op1 = 4;
            }
            i.ap = if src.bool() { 2 } else { 0 };
        }
        if !vm.free(vm.s.pc, i.size()) {
            break;
        }
        let saved = vm.clone();
        vm.mem.insert(vm.s.pc, FE::from(i.word()));
        match vm.resolve(src, &i, want) {
            Ok(t) => {
                vm.code.insert(vm.s.pc, i.clone());
                vm.take(i, t);
            }
            Err(_) => vm = saved,
        }
    }
    for a in 1..=program_len {
        if !vm.mem.contains_key(&a) {
            let v = vm.value(src);
            vm.mem.insert(a, v);
        }
    }
    Run { code: vm.code, mem: vm.mem, regs: vm.regs, steps: vm.steps, program_len, output: None, rc: None }
}

/// Unrelated valid steps: each starts from registers of its own, anywhere in the address space, with
/// offsets anywhere in their range.
pub fn scattered(src: &mut Src) -> Run {
    let margin = 1u64 << 17;
    let mut vm = Vm {
        code: HashMap::new(),
        mem: Mem::new(),
        s: Regs { pc: 1, ap: 1, fp: 1 },
        regs: vec![],
        steps: vec![],
        program_len: 0,
        limit: u64::MAX - margin,
        depth: 0,
        rc: 0..0,
        fault: None,
        eager: false,
    };
    let register = |src: &mut Src| {
        let r = match src.upto(5) {
            0 => src.range(1, 100_000),
            1 => 1 << src.range(15, 63),
            2 => (1u64 << src.range(15, 63)) - src.range(1, 5),
            _ => src.u64() >> src.upto(48),
        };
        r.clamp(margin, u64::MAX - 2 * margin)
    };
    let goal = src.usize(1, 12);
    for _ in 0..3 * goal {
        if vm.steps.len() == goal {
            break;
        }
        let mut off = || match src.upto(4) {
            0 => *src.pick(&[-32_768, -32_767, 32_767, 32_766]),
            1 | 2 => src.upto(8) as i32 - 4,
            _ => src.upto(65_535) as i32 - 32_768,
        };
        let off = [off(), off(), off()];
        let mut i = Instr { off, dst_fp: src.bool(), op0_fp: src.bool(), op1: *src.pick(&[0, 0, 1, 2, 4]), res: src.upto(2) as u8, pc: 0, ap: 0, op: 0 };
        if i.op1 == 1 && src.chance(3, 4) {
            i.off[2] = 1;
        }
        let mut want = None;
        let s = Regs { pc: register(src), ap: register(src), fp: register(src) };
        i.ap = *src.pick(&[0, 0, 2]);
        match src.upto(5) {
            0 | 1 => i.op = 4,
            2 => {
                i.pc = src.range(1, 2) as u8;
                let t = FE::from(register(src));
                want = Some(if i.pc == 1 { t } else { t - FE::from(s.pc) });
                if src.bool() {
                    i = Instr { op: 1, off: [0, 1, i.off[2]], dst_fp: false, op0_fp: false, ap: 0, ..i };
                    i.res = 0;
                }
            }
            3 => {
                i.pc = 4;
                i.res = 0;
            }
            4 => {
                i.op = 2;
                i.pc = 1;
                i.ap = 0;
                want = Some(FE::from(register(src)));
            }
            _ => {
                if src.bool() {
                    i.ap = 1;
                    want = Some(FE::from(src.upto(1000)));
                }
            }
        }
        let saved = vm.clone();
        vm.s = s;
        let a_dst = add_off(if i.dst_fp { s.fp } else { s.ap }, i.off[0]).unwrap();
        if i.op == 2 {
            vm.mem.entry(a_dst).or_insert(FE::from(register(src)));
        }
        if vm.mem.contains_key(&s.pc) || vm.mem.insert(s.pc, FE::from(i.word())).is_some() {
            vm = saved;
            continue;
        }
        if i.pc == 4 && i.op1 != 0 {
            let base = match i.op1 {
                1 => s.pc,
                2 => s.fp,
                _ => s.ap,
            };
            let v = FE::from(register(src)) - FE::from(s.pc);
            vm.mem.entry(add_off(base, i.off[2]).unwrap()).or_insert(v);
        }
        match vm.resolve(src, &i, want) {
            Ok(t) => {
                vm.code.insert(s.pc, i.clone());
                vm.take(i, t);
            }
            Err(_) => vm = saved,
        }
    }
    if vm.steps.is_empty() {
        let i = Instr { off: [1, 2, 3], dst_fp: true, op0_fp: true, op1: 2, res: 0, pc: 0, ap: 0, op: 0 };
        vm.s = Regs { pc: margin, ap: margin, fp: margin };
        vm.mem.insert(margin, FE::from(i.word()));
        let t = vm.resolve(src, &i, None).unwrap();
        vm.take(i, t);
    }
    Run { code: vm.code, mem: vm.mem, regs: vm.regs, steps: vm.steps, program_len: 0, output: None, rc: None }
}

/// A program that goes round a loop of a few instructions for as many steps as asked.
pub fn counting(src: &mut Src, steps: usize) -> Run {
    let body = src.range(1, 30);
    let plain = Instr { off: [0, -1, 1], dst_fp: false, op0_fp: false, op1: 1, res: 1, pc: 0, ap: 2, op: 4 };
    let jump = Instr { off: [-1, -1, 1], dst_fp: true, op0_fp: true, op1: 1, res: 0, pc: 2, ap: 0, op: 0 };
    let mut mem = Mem::new();
    let mut code = HashMap::new();
    for k in 0..=body {
        let (i, v) = if k < body {
            (Instr { res: src.range(1, 2) as u8, ..plain.clone() }, FE::from(src.range(1, 1000)))
        } else {
            (jump.clone(), FE::zero() - FE::from(2 * body))
        };
        mem.insert(2 * k + 1, FE::from(i.word()));
        mem.insert(2 * k + 2, v);
        code.insert(2 * k + 1, i);
    }
    let program_len = 2 * body + 2;
    let base = program_len + 1;
    for k in 0..3 {
        mem.insert(base + k, FE::from(base + 500 + k));
    }
    let mut s = Regs { pc: 1, ap: base + 3, fp: base + 3 };
    let (mut regs, mut taken) = (vec![], vec![]);
    while taken.len() < steps {
        let i = code[&s.pc].clone();
        if i.op == 4 {
            let (x, y) = (&mem[&(s.ap - 1)], &mem[&(s.pc + 1)]);
            let v = if i.res == 1 { x + y } else { x * y };
            mem.insert(s.ap, v);
        }
        let t = eval(&i, &s, &mem).expect("a valid step");
        regs.push(s);
        s = t.next;
        taken.push((i, t));
    }
    Run { code, mem, regs, steps: taken, program_len, output: None, rc: None }
}

/// A valid execution.
pub fn generate(src: &mut Src, cfg: &Cfg) -> Run {
    let program_len = src.usize(2, cfg.max_program) as u64;
    let out_len = if cfg.max_output > 0 && src.chance(1, 4) { src.range(1, cfg.max_output as u64) } else { 0 };
    let rc_len = if cfg.max_rc > 0 && src.chance(1, 3) { src.range(1, cfg.max_rc as u64) } else { 0 };
    let segments = out_len + rc_len > 0;
    let room = if segments { src.range(14, cfg.max_room.max(14)) } else { cfg.free_room };
    let base = program_len + 1;
    let out = base + room..base + room + out_len;
    let rc = out.end..out.end + rc_len;
    let ptrs = [(out_len > 0).then_some(out.start), (rc_len > 0).then_some(rc.start)];
    let mut mem = Mem::new();
    let mut sp = base;
    let mut arg = Vec::new();
    for p in ptrs.into_iter().flatten() {
        mem.insert(sp, FE::from(p));
        arg.push(sp);
        sp += 1;
    }
    // the caller's frame and return address
    mem.insert(sp, FE::from(sp + 500));
    mem.insert(sp + 1, FE::from(sp + 501));
    sp += 2;
    let mut vm = Vm {
        code: HashMap::new(),
        mem,
        s: Regs { pc: 1, ap: sp, fp: sp },
        regs: vec![],
        steps: vec![],
        program_len,
        limit: if segments { out.start - 1 } else { base + room },
        depth: 0,
        rc: rc.clone(),
        fault: cfg.fault,
        eager: false,
    };
    if src.chance(1, 4) {
        vm.s.pc = src.range(1, program_len.min(6));
    }
    // output cells and some range-checked cells are read through their pointers
    vm.limit = rc.end.max(vm.limit);
    let deref = |arg: u64, k: u64, fp: u64| Instr {
        off: [0, arg as i32 - fp as i32, k as i32],
        dst_fp: false,
        op0_fp: true,
        op1: 0,
        res: 0,
        pc: 0,
        ap: 2,
        op: 4,
    };
    let mut output = None;
    if out_len > 0 {
        // cells which no instruction touches (a hint wrote them) are public all the same
        let untouched = src.chance(1, 5);
        let mut done = 0;
        while done < out_len {
            if untouched && src.bool() {
                let v = vm.value(src);
                vm.mem.entry(out.start + done).or_insert(v);
            } else if !vm.prologue(src, deref(arg[0], done, sp)) {
                break;
            }
            done += 1;
        }
        output = Some(out.start..out.start + done).filter(|r| !r.is_empty());
    }
    let mut range = None;
    if rc_len > 0 {
        let read = src.upto(rc_len);
        for k in 0..read {
            vm.prologue(src, deref(*arg.last().unwrap(), k, sp));
        }
        // cells in between may stay unused; the segment ends at its last used cell
        let holes = src.chance(1, 6);
        for a in rc.clone() {
            if !(holes && a + 1 < rc.end && src.bool()) {
                vm.mem.entry(a).or_insert_with(|| rc_value(src));
            }
        }
        range = Some(rc.clone());
    }
    if segments {
        vm.limit = out.start - 1;
    }
    let goal = src.usize(1, cfg.max_steps).max(vm.steps.len() + 1);
    let mut checkpoint: Option<Vm> = None;
    let (mut back, mut turns) = (true, 4);
    while vm.steps.len() < goal {
        let pc = vm.s.pc;
        if let Some(i) = vm.code.get(&pc).cloned() {
            match vm.resolve(src, &i, None) {
                Ok(t) if vm.can_go(t.next.pc) || vm.steps.len() + 1 == goal => vm.take(i, t),
                _ => match checkpoint.take() {
                    Some(c) => {
                        vm = c;
                        turns -= 1;
                        back = turns > 0;
                    }
                    None => break,
                },
            }
            continue;
        }
        if !vm.free(pc, 1) {
            break;
        }
        let saved = vm.clone();
        vm.eager = back && goal - vm.steps.len() > 6 && !vm.free(pc, 5);
        match vm.synthesise(src, cfg, back) {
            Some((i, t)) => {
                if vm.code.contains_key(&t.next.pc) && back {
                    checkpoint = Some(saved);
                }
                back = turns > 0;
                let stop = !vm.can_go(t.next.pc);
                vm.take(i, t);
                if stop {
                    break;
                }
            }
            None => break,
        }
    }
    if vm.steps.is_empty() {
        // no room for anything: a single instruction reading known cells
        let i = Instr { off: [-1, -1, -1], dst_fp: true, op0_fp: true, op1: 2, res: 0, pc: 0, ap: 0, op: 4 };
        vm.mem.insert(vm.s.pc, FE::from(i.word()));
        let t = eval(&i, &vm.s, &vm.mem).unwrap();
        vm.code.insert(vm.s.pc, i.clone());
        vm.take(i, t);
    }
    for a in 1..=program_len {
        if !vm.mem.contains_key(&a) {
            let v = vm.value(src);
            vm.mem.insert(a, v);
        }
    }
    Run { code: vm.code, mem: vm.mem, regs: vm.regs, steps: vm.steps, program_len, output, rc: range }
}

impl Run {
    pub fn registers(&self) -> RegisterStates {
        RegisterStates { rows: self.regs.iter().map(|r| RegistersState { pc: r.pc, fp: r.fp, ap: r.ap }).collect() }
    }
    pub fn memory(&self) -> CairoMemory {
        CairoMemory::new(self.mem.iter().map(|(a, v)| (*a, v.clone())).collect())
    }
    pub fn segments(&self) -> MemorySegmentMap {
        let mut m = MemorySegmentMap::new();
        if let Some(r) = &self.rc {
            m.insert(MemorySegment::RangeCheck, r.clone());
        }
        if let Some(r) = &self.output {
            m.insert(MemorySegment::Output, r.clone());
        }
        m
    }
    pub fn public(&self) -> PublicInputs {
        PublicInputs::from_regs_and_mem(&self.registers(), &self.memory(), self.program_len as usize, &self.segments())
    }
    /// The prescribed rows of the executed steps.
    pub fn rows(&self) -> Vec<Vec<FE>> {
        let n = self.steps.len();
        (0..n).map(|k| trace_row(&self.steps[k].0, &self.regs[k], &self.steps[k].1, k + 1 < n)).collect()
    }
    pub fn describe(&self) -> String {
        let code: Vec<String> = self.steps.iter().take(12).map(|(i, _)| format!("{} {:?}", i.kind(), i.off)).collect();
        format!(
            "{} steps, program {}, output {:?}, range checks {:?}, first regs {:?}: {}",
            self.steps.len(),
            self.program_len,
            self.output,
            self.rc,
            self.regs[0],
            code.join("; ")
        )
    }
}
