//! Generator of runnable Cairo 0 programs and Cairo 1 contracts whose effects are known
//! beforehand, and of inputs that cannot be run.
use crate::cairo::{rc_value, Instr};
use crate::{fe, fe_uniform, FE};
use engine::Src;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Prog {
    pub v1: bool,
    pub json: Value,
    pub words: Vec<FE>,
    /// offset of main
    pub main: u64,
    pub has_out: bool,
    pub has_rc: bool,
    pub outputs: Vec<FE>,
    /// cells of the range check segment; None is unused
    pub range_checks: Vec<Option<FE>>,
    /// known cells relative to the initial frame pointer
    pub known: Vec<(i64, FE)>,
    /// executed instructions
    pub steps: usize,
    pub notes: Vec<&'static str>,
}

impl Prog {
    pub fn bytes(&self) -> Vec<u8> {
        serde_json::to_vec(&self.json).unwrap()
    }
    /// where main finds its builtin pointers, relative to fp
    pub fn out_ptr(&self) -> Option<i64> {
        self.has_out.then_some(if self.has_rc { -4 } else { -3 })
    }
    pub fn rc_ptr(&self) -> Option<i64> {
        self.has_rc.then_some(if self.v1 { -7 } else { -3 })
    }
    pub fn describe(&self) -> String {
        format!(
            "{} program of {} words, {} steps, {} outputs, {} range checks: {}",
            if self.v1 { "Cairo 1" } else { "Cairo 0" },
            self.words.len(),
            self.steps,
            self.outputs.len(),
            self.range_checks.len(),
            self.notes.iter().take(10).copied().collect::<Vec<_>>().join(", ")
        )
    }
}

pub fn ret() -> Instr {
    Instr { off: [-2, -1, -1], dst_fp: true, op0_fp: true, op1: 2, res: 0, pc: 1, ap: 0, op: 2 }
}
fn plain() -> Instr {
    Instr { off: [-1, -1, 1], dst_fp: true, op0_fp: true, op1: 1, res: 0, pc: 0, ap: 0, op: 0 }
}
/// `[ap] = res; ap++`
fn push(op0_fp: bool, op0: i64, op1: u8, off1: i64, res: u8) -> Instr {
    Instr { off: [0, op0 as i32, off1 as i32], dst_fp: false, op0_fp, op1, res, pc: 0, ap: 2, op: 4 }
}

struct Builder {
    words: Vec<FE>,
    /// position of ap relative to the frame pointer
    sp: i64,
    cells: Vec<(i64, FE)>,
    calls: Vec<(usize, usize)>,
    funcs: Vec<Vec<FE>>,
    hints: Vec<(usize, Vec<Value>)>,
    steps: usize,
    outputs: Vec<FE>,
    rc: Vec<Option<FE>>,
    notes: Vec<&'static str>,
    /// loops may run for long
    long: bool,
}

impl Builder {
    fn emit(&mut self, i: &Instr) {
        self.words.push(FE::from(i.word()));
        self.steps += 1;
    }
    fn emit_imm(&mut self, i: &Instr, v: FE) {
        self.emit(i);
        self.words.push(v);
    }
    fn pushed(&mut self, v: FE) {
        self.cells.push((self.sp, v));
        self.sp += 1;
    }
    fn push_imm(&mut self, v: FE) {
        self.emit_imm(&push(true, -1, 1, 1, 0), v.clone());
        self.pushed(v);
    }
    fn cell(&self, src: &mut Src) -> (i64, FE) {
        // mostly recent ones
        let n = self.cells.len();
        let back = if src.chance(1, 4) { src.usize(0, n - 1) } else { src.usize(0, n.min(6) - 1) };
        self.cells[n - 1 - back].clone()
    }
    /// address a cell from fp or from ap
    fn at(&self, src: &mut Src, pos: i64) -> (bool, i64) {
        if src.bool() {
            (true, pos)
        } else {
            (false, pos - self.sp)
        }
    }
}

fn value(src: &mut Src) -> FE {
    match src.upto(4) {
        0 => FE::from(src.upto(3)),
        1 => FE::zero() - FE::from(src.range(1, 5)),
        2 => FE::from(src.edgy_u64()),
        3 => fe(src),
        _ => fe_uniform(src),
    }
}

pub fn in_range(v: &FE) -> bool {
    v.to_bytes_be()[..16].iter().all(|b| *b == 0)
}

fn reg(fp: bool, off: i64) -> Value {
    json!({"register": if fp { "FP" } else { "AP" }, "offset": off})
}

fn op(b: &mut Builder, src: &mut Src, v1: bool, out_ptr: Option<i64>, rc_ptr: Option<i64>) {
    if b.cells.is_empty() {
        b.push_imm(value(src));
        return;
    }
    match src.weighted(&[3, 4, 2, 3, 2, 2, 2, 3, 2, 3, 4, 4, 2, 2, 3]) {
        0 => b.push_imm(value(src)),
        // [ap] = cell (+|*) cell
        1 => {
            let (pa, va) = b.cell(src);
            let (pb, vb) = b.cell(src);
            let (fa, oa) = b.at(src, pa);
            let (fb, ob) = b.at(src, pb);
            let res = src.upto(2) as u8;
            b.emit(&push(fa, oa, if fb { 2 } else { 4 }, ob, res));
            b.pushed(match res {
                0 => vb,
                1 => va + vb,
                _ => va * vb,
            });
            b.notes.push("arithmetic");
        }
        // with an immediate
        2 => {
            let (pa, va) = b.cell(src);
            let (fa, oa) = b.at(src, pa);
            let v = value(src);
            let mul = src.bool();
            b.emit_imm(&push(fa, oa, 1, 1, 1 + mul as u8), v.clone());
            b.pushed(if mul { va * v } else { va + v });
        }
        // the missing operand is deduced: cell = [ap] (+|*) cell; ap++
        3 => {
            let (pd, vd) = b.cell(src);
            let (pb, vb) = b.cell(src);
            let mul = src.bool() && vb != FE::zero();
            let (fd, od) = b.at(src, pd);
            let (fb, ob) = b.at(src, pb);
            let (fa, _) = (false, 0);
            let new = if mul { &vd * vb.inv() } else { &vd - &vb };
            let i = if src.bool() {
                // first operand unknown
                Instr { off: [od as i32, 0, ob as i32], dst_fp: fd, op0_fp: fa, op1: if fb { 2 } else { 4 }, res: 1 + mul as u8, pc: 0, ap: 2, op: 4 }
            } else {
                Instr { off: [od as i32, ob as i32, 0], dst_fp: fd, op0_fp: fb, op1: 4, res: 1 + mul as u8, pc: 0, ap: 2, op: 4 }
            };
            b.emit(&i);
            b.pushed(new);
            b.notes.push("deduction");
        }
        // an assertion that holds
        4 => {
            let (p, v) = b.cell(src);
            let (f, o) = b.at(src, p);
            b.emit_imm(&Instr { off: [o as i32, -1, 1], dst_fp: f, ap: 0, op: 4, ..plain() }, v);
        }
        // unused cells
        5 => {
            let n = src.upto(5);
            b.emit_imm(&Instr { ap: 1, ..plain() }, FE::from(n));
            b.sp += n as i64;
            b.notes.push("ap +=");
        }
        // jump over words that are never executed
        6 => {
            let junk = src.usize(0, 3);
            if src.bool() {
                b.emit_imm(&Instr { pc: 2, ..plain() }, FE::from(2 + junk as u64));
            } else {
                b.push_imm(FE::from(1 + junk as u64));
                b.emit(&Instr { off: [-1, -1, -1], op1: 4, pc: 2, ..plain() });
            }
            for _ in 0..junk {
                b.words.push(value(src));
            }
            b.notes.push("jump");
        }
        // conditional jump, taken or not
        7 => {
            let (p, v) = b.cell(src);
            let (f, o) = b.at(src, p);
            let j = Instr { off: [o as i32, -1, 1], dst_fp: f, pc: 4, ap: if src.bool() { 2 } else { 0 }, ..plain() };
            if v == FE::zero() {
                b.emit_imm(&j, FE::from(src.range(2, 9)));
            } else {
                let junk = src.usize(0, 3);
                b.emit_imm(&j, FE::from(2 + junk as u64));
                for _ in 0..junk {
                    b.words.push(value(src));
                }
            }
            if j.ap == 2 {
                b.sp += 1;
            }
            b.notes.push("jnz");
        }
        // a loop with a counter
        8 => {
            let n = if b.long && b.sp < 12_000 && src.chance(1, 6) { src.range(100, 3000) } else { src.range(1, 6) };
            b.push_imm(FE::from(n));
            let body = src.usize(0, 3);
            // (immediate?, operand, operand, multiplication)
            let ops: Vec<(Option<FE>, i64, i64, bool)> = (0..body)
                .map(|k| (src.chance(1, 4).then(|| value(src)), -1 - src.upto(k as u64) as i64, -1 - src.upto(k as u64) as i64, src.bool()))
                .collect();
            let start = b.words.len();
            let mut code = Vec::new();
            for (imm, x, y, mul) in &ops {
                match imm {
                    Some(v) => code.extend([FE::from(push(true, -1, 1, 1, 0).word()), v.clone()]),
                    None => code.push(FE::from(push(false, *x, 4, *y, 1 + *mul as u8).word())),
                }
            }
            code.push(FE::from(push(false, -1 - body as i64, 1, 1, 1).word()));
            code.push(FE::zero() - FE::one());
            let back = code.len() as u64;
            code.push(FE::from(Instr { off: [-1, -1, 1], dst_fp: false, op0_fp: true, op1: 1, res: 0, pc: 4, ap: 0, op: 0 }.word()));
            code.push(FE::zero() - FE::from(back));
            debug_assert_eq!(start, b.words.len());
            b.words.extend(code);
            for it in 0..n {
                for (imm, x, y, mul) in &ops {
                    let len = b.cells.len() as i64;
                    let get = |o: &i64| b.cells[(len + o) as usize].1.clone();
                    let v = match imm {
                        Some(v) => v.clone(),
                        None if *mul => get(x) * get(y),
                        None => get(x) + get(y),
                    };
                    b.pushed(v);
                }
                b.pushed(FE::from(n - 1 - it));
                b.steps += body + 2;
            }
            b.notes.push("loop");
        }
        // a function call
        9 => {
            let (p, v) = b.cell(src);
            let (f, o) = b.at(src, p);
            b.emit(&push(true, -1, if f { 2 } else { 4 }, o, 0));
            b.pushed(v.clone());
            let small = crate::cairo::to_u64(&v).filter(|v| *v <= 6);
            let id = b.funcs.len();
            let grow;
            match small {
                Some(k) if src.bool() => {
                    // f(k): stops at zero, otherwise f(k - 1)
                    let mut code = vec![FE::from(Instr { off: [-3, -1, 1], pc: 4, ..plain() }.word()), FE::from(3u64), FE::from(ret().word())];
                    code.extend([FE::from(push(true, -3, 1, 1, 1).word()), FE::zero() - FE::one()]);
                    code.extend([FE::from(call().word()), FE::zero() - FE::from(5u64), FE::from(ret().word())]);
                    b.funcs.push(code);
                    grow = 2 + 3 * k as i64;
                    b.steps += 2 + 4 * k as usize;
                    b.notes.push("recursion");
                }
                _ => {
                    let mut code = vec![];
                    let n = src.usize(0, 4);
                    for k in 0..n {
                        let i = match src.upto(2) {
                            0 => push(true, -3, 2, -3, 1 + src.upto(1) as u8),
                            1 if k > 0 => push(false, -1, 2, src.upto(k as u64 - 1) as i64, src.upto(2) as u8),
                            _ => push(true, -1, 1, 1, 0),
                        };
                        code.push(FE::from(i.word()));
                        if i.op1 == 1 {
                            code.push(value(src));
                        }
                    }
                    code.push(FE::from(ret().word()));
                    b.funcs.push(code);
                    grow = 2 + n as i64;
                    b.steps += n + 1;
                    b.notes.push("call");
                }
            }
            b.calls.push((b.words.len(), id));
            b.emit_imm(&call(), FE::zero());
            b.sp += grow;
        }
        // a range check
        10 => {
            let Some(ptr) = rc_ptr else { return };
            let (mut p, mut v) = b.cell(src);
            if !in_range(&v) {
                v = rc_value(src);
                b.push_imm(v.clone());
                p = b.sp - 1;
            }
            if src.chance(1, 12) {
                b.rc.push(None);
            }
            let (f, o) = b.at(src, p);
            let k = b.rc.len() as i32;
            b.emit(&Instr { off: [o as i32, ptr as i32, k], dst_fp: f, op0_fp: true, op1: 0, res: 0, pc: 0, ap: 0, op: 4 });
            b.rc.push(Some(v));
            b.notes.push("range check");
        }
        // an output
        11 => {
            let Some(ptr) = out_ptr else { return };
            let (p, v) = b.cell(src);
            let (f, o) = b.at(src, p);
            let k = b.outputs.len() as i32;
            b.emit(&Instr { off: [o as i32, ptr as i32, k], dst_fp: f, op0_fp: true, op1: 0, res: 0, pc: 0, ap: 0, op: 4 });
            b.outputs.push(v);
            b.notes.push("output");
        }
        // read a builtin cell back
        12 => {
            let (ptr, k, v) = if let (Some(p), Some(k)) = (rc_ptr, b.rc.iter().rposition(|v| v.is_some())) {
                (p, k, b.rc[k].clone().unwrap())
            } else if let (Some(p), false) = (out_ptr, b.outputs.is_empty()) {
                let k = src.usize(0, b.outputs.len() - 1);
                (p, k, b.outputs[k].clone())
            } else {
                return;
            };
            b.emit(&push(true, ptr, 0, k as i64, 0));
            b.pushed(v);
            b.notes.push("double deref");
        }
        // a comparison made by a hint
        13 if v1 => {
            let (p, v) = b.cell(src);
            let w = value(src);
            let (f, o) = b.at(src, p);
            let strict = src.bool();
            let r = if strict { v.representative() < w.representative() } else { v.representative() <= w.representative() };
            let body = json!({"lhs": {"Deref": reg(f, o)}, "rhs": {"Immediate": hex(&w)}, "dst": reg(false, 0)});
            let name = if strict { "TestLessThan" } else { "TestLessThanOrEqual" };
            b.hints.push((b.words.len(), vec![json!({ name: body })]));
            let junk = src.usize(0, 2);
            b.emit_imm(&Instr { off: [0, -1, 1], dst_fp: false, pc: 4, ap: 2, ..plain() }, FE::from(2 + if r { junk as u64 } else { 7 }));
            if r {
                for _ in 0..junk {
                    b.words.push(value(src));
                }
            }
            b.pushed(FE::from(r as u64));
            b.notes.push("hint");
        }
        // a new segment
        14 if v1 => {
            b.hints.push((b.words.len(), vec![json!({"AllocSegment": {"dst": reg(false, 0)}})]));
            b.emit_imm(&Instr { ap: 1, ..plain() }, FE::one());
            b.sp += 1;
            for k in 0..src.usize(0, 3) {
                let (p, _) = b.cell(src);
                // the pointer is the last cell
                let (f, o) = b.at(src, p);
                b.emit(&Instr { off: [o as i32, -1, k as i32], dst_fp: f, op0_fp: false, op1: 0, res: 0, pc: 0, ap: 0, op: 4 });
            }
            b.notes.push("new segment");
        }
        _ => b.push_imm(value(src)),
    }
}

pub fn call() -> Instr {
    Instr { off: [0, 1, 1], dst_fp: false, op0_fp: false, op1: 1, res: 0, pc: 2, ap: 0, op: 1 }
}

pub const PRIME: &str = "0x800000000000011000000000000000000000000000000000000000000000001";

pub fn cairo0_json(builtins: &[&str], words: &[Value], main: u64) -> Value {
    json!({
        "attributes": [], "builtins": builtins, "compiler_version": "0.11.0", "data": words, "debug_info": null,
        "hints": {}, "identifiers": {"__main__.main": {"decorators": [], "pc": main, "type": "function"}},
        "main_scope": "__main__", "prime": PRIME, "reference_manager": {"references": []}
    })
}

pub fn cairo1_json(words: &[Value], hints: &[(usize, Vec<Value>)]) -> Value {
    json!({
        "prime": PRIME, "compiler_version": "1.1.0", "bytecode": words, "hints": hints, "pythonic_hints": null,
        "entry_points_by_type": {"EXTERNAL": [{"selector": "0x1", "offset": 0, "builtins": ["range_check"]}], "L1_HANDLER": [], "CONSTRUCTOR": []}
    })
}

/// 0x notation without leading zeros
pub fn hex(v: &FE) -> String {
    let d = crate::hex(&v.to_bytes_be());
    let d = d.trim_start_matches('0');
    format!("0x{}", if d.is_empty() { "0" } else { d })
}

pub fn hexes(words: &[FE]) -> Vec<Value> {
    words.iter().map(|w| Value::String(hex(w))).collect()
}

pub fn generate(src: &mut Src, v1: bool, max_ops: usize) -> Prog {
    let has_out = !v1 && src.bool();
    let has_rc = v1 || src.bool();
    let mut p = Prog {
        v1,
        json: Value::Null,
        words: vec![],
        main: 0,
        has_out,
        has_rc,
        outputs: vec![],
        range_checks: vec![],
        known: vec![],
        steps: 0,
        notes: vec![],
    };
    let mut b = Builder {
        words: vec![],
        sp: 0,
        cells: vec![],
        calls: vec![],
        funcs: vec![],
        hints: vec![],
        steps: 0,
        outputs: vec![],
        rc: vec![],
        notes: vec![],
        long: max_ops >= 100,
    };
    let n = src.usize(0, max_ops);
    for _ in 0..n {
        op(&mut b, src, v1, p.out_ptr(), p.rc_ptr());
    }
    // the builtin pointers are returned
    if !v1 {
        for (ptr, used) in [(p.out_ptr(), b.outputs.len()), (p.rc_ptr(), b.rc.len())] {
            if let Some(ptr) = ptr {
                if used == 0 && src.bool() {
                    b.emit(&push(true, -1, 2, ptr, 0));
                } else {
                    b.emit_imm(&push(true, ptr, 1, 1, 1), FE::from(used as u64));
                }
                b.sp += 1;
            }
        }
    }
    b.emit(&ret());
    // lay out: some functions before main (entry point zero for contracts)
    let before: Vec<usize> = (0..b.funcs.len()).filter(|_| !v1 && src.bool()).collect();
    let junk = if v1 { 0 } else { src.usize(0, 2) };
    let mut words: Vec<FE> = (0..junk).map(|_| value(src)).collect();
    let mut place = vec![0; b.funcs.len()];
    for k in &before {
        place[*k] = words.len();
        words.extend(b.funcs[*k].iter().cloned());
    }
    let main = words.len();
    words.extend(b.words.iter().cloned());
    for k in 0..b.funcs.len() {
        if !before.contains(&k) {
            place[k] = words.len();
            words.extend(b.funcs[k].iter().cloned());
        }
    }
    for _ in 0..src.upto(2) {
        words.push(value(src));
    }
    for (at, id) in &b.calls {
        words[main + at + 1] = FE::from(place[*id] as u64) - FE::from((main + at) as u64);
    }
    let builtins: Vec<&str> = [("output", has_out), ("range_check", has_rc)].iter().filter(|x| x.1).map(|x| x.0).collect();
    p.json = if v1 { cairo1_json(&hexes(&words), &b.hints) } else { cairo0_json(&builtins, &hexes(&words), main as u64) };
    p.words = words;
    p.main = main as u64;
    p.outputs = b.outputs;
    p.range_checks = b.rc;
    p.known = b.cells;
    p.steps = b.steps;
    p.notes = b.notes;
    p
}

/// Something that cannot be run: the bytes, whether they pass for a contract, and why.
pub fn broken(src: &mut Src) -> (Vec<u8>, bool, String) {
    let v1 = src.bool();
    let good = generate(src, v1, 12);
    let key = if v1 { "bytecode" } else { "data" };
    let mut j = good.json.clone();
    let code = |words: &[FE]| if v1 { cairo1_json(&hexes(words), &[]) } else { cairo0_json(&[], &hexes(words), 0) };
    let imm = push(true, -1, 1, 1, 0);
    let assert_eq = |o: i32| Instr { off: [o, -1, 1], dst_fp: false, ap: 0, op: 4, ..plain() };
    let what = match src.upto(11) {
        0 => {
            // 3 = 4
            j = code(&[FE::from(imm.word()), FE::from(3u64), FE::from(assert_eq(-1).word()), FE::from(4u64), FE::from(ret().word())]);
            "failing assertion".to_string()
        }
        1 => {
            let w = FE::zero() - FE::from(src.range(1, 9));
            j = code(&[FE::from(imm.word()), FE::from(3u64), w, FE::from(ret().word())]);
            "word that is no instruction".into()
        }
        2 => {
            // undefined flag combinations
            let f = *src.pick(&[3u64 << 2, 5 << 2, 6 << 2, 7 << 2, 3 << 5, 3 << 7, 5 << 7, 6 << 7, 7 << 7, 3 << 10, 3 << 12, 5 << 12, 6 << 12, 7 << 12]);
            let w = f << 48 | 0x7fff | 0x7fff << 16 | 0x8001 << 32;
            j = code(&[FE::from(w), FE::from(3u64), FE::from(ret().word())]);
            format!("undefined flags {f:#x}")
        }
        3 => {
            // runs off the end of the program
            j = code(&[FE::from(imm.word()), FE::from(3u64)]);
            if v1 {
                // the return instruction follows a contract: jump behind it
                j = code(&[FE::from(Instr { pc: 2, ..plain() }.word()), FE::from(200u64)]);
            }
            "runs off the program".into()
        }
        4 => {
            // a value that does not fit the range check segment
            let v = match src.upto(2) {
                0 => FE::zero() - FE::one(),
                1 => FE::from(1u64 << 32) * FE::from(1u64 << 32) * FE::from(1u64 << 32) * FE::from(1u64 << 32),
                _ => fe_uniform(src),
            };
            let v = if in_range(&v) { FE::zero() - FE::one() } else { v };
            let ptr = if v1 { -7 } else { -3 };
            let words = [
                FE::from(imm.word()),
                v,
                FE::from(Instr { off: [-1, ptr, 0], dst_fp: false, op0_fp: true, op1: 0, res: 0, pc: 0, ap: 0, op: 4 }.word()),
                FE::from(push(true, ptr as i64, 1, 1, 1).word()),
                FE::one(),
                FE::from(ret().word()),
            ];
            j = if v1 { cairo1_json(&hexes(&words), &[]) } else { cairo0_json(&["range_check"], &hexes(&words), 0) };
            "range check that fails".into()
        }
        5 => {
            let mut b = good.bytes();
            let cut = src.usize(0, b.len() - 1);
            b.truncate(cut);
            return (b, v1, format!("first {cut} bytes"));
        }
        6 => {
            let n = src.usize(0, 40);
            return (src.bytes(n), v1, format!("{n} random bytes"));
        }
        7 => {
            let k = src.usize(0, good.words.len() - 1);
            j[key][k] = src.pick(&[json!("0xzz"), json!("hello"), json!(17), json!(null), json!("")]).clone();
            format!("word {k} is {}", j[key][k])
        }
        8 => {
            j.as_object_mut().unwrap().remove(key);
            format!("no {key}")
        }
        9 if !v1 => {
            j["identifiers"].as_object_mut().unwrap().remove("__main__.main");
            "no main".into()
        }
        10 if !v1 => {
            j["builtins"] = src.pick(&[json!(["pedersen"]), json!(["unknown"]), json!("output"), json!([3])]).clone();
            format!("builtins {}", j["builtins"])
        }
        9 => {
            j["hints"] = json!([[0, [{"UnknownHint": {}}]]]);
            "unknown hint".into()
        }
        10 => {
            j["hints"] = json!([[0, [{"TestLessThan": {"lhs": {"Deref": reg(false, 900)}, "rhs": {"Immediate": "0x1"}, "dst": reg(false, 0)}}]]]);
            "hint about an unknown cell".into()
        }
        _ if v1 => {
            j["entry_points_by_type"] = json!(3);
            "bad entry points".into()
        }
        _ => {
            // the returned output pointer is wrong
            let words = [FE::from(push(true, -3, 1, 1, 1).word()), FE::from(src.range(1, 5)), FE::from(ret().word())];
            j = cairo0_json(&["output"], &hexes(&words), 0);
            "wrong output pointer".into()
        }
    };
    (serde_json::to_vec(&j).unwrap(), v1, what)
}
