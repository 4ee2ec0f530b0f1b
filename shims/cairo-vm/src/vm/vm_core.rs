use crate::felt::Felt252;
use crate::hint_processor::hint_processor_definition::HintProcessor;
use crate::serde::deserialize_program::BuiltinName;
use crate::types::relocatable::{MaybeRelocatable, Relocatable};
use crate::vm::errors::{
    memory_errors::MemoryError, trace_errors::TraceError, vm_errors::VirtualMachineError,
};
use crate::vm::runners::builtin_runner::BuiltinRunner;
use crate::vm::trace::trace_entry::TraceEntry;

pub struct VirtualMachine {
    pub(crate) segments: Vec<Vec<Option<MaybeRelocatable>>>,
    pub(crate) builtin_runners: Vec<BuiltinRunner>,
    pub(crate) pc: Relocatable,
    pub(crate) ap: Relocatable,
    pub(crate) fp: Relocatable,
    pub(crate) trace: Option<Vec<(Relocatable, Relocatable, Relocatable)>>,
    pub(crate) relocated_trace: Option<Vec<TraceEntry>>,
}

const MAX_STEPS: usize = 1 << 22;

impl VirtualMachine {
    pub fn new(trace_enabled: bool) -> Self {
        VirtualMachine {
            segments: vec![],
            builtin_runners: vec![],
            pc: Relocatable::default(),
            ap: Relocatable::default(),
            fp: Relocatable::default(),
            trace: trace_enabled.then(Vec::new),
            relocated_trace: None,
        }
    }
    pub fn get_ap(&self) -> Relocatable {
        self.ap
    }
    pub fn get_fp(&self) -> Relocatable {
        self.fp
    }
    pub fn get_pc(&self) -> Relocatable {
        self.pc
    }
    pub fn add_memory_segment(&mut self) -> Relocatable {
        self.segments.push(vec![]);
        Relocatable { segment_index: self.segments.len() as isize - 1, offset: 0 }
    }
    pub fn get_maybe(&self, r: &Relocatable) -> Option<MaybeRelocatable> {
        self.segments.get(r.segment_index as usize)?.get(r.offset)?.clone()
    }
    pub fn insert_value(&mut self, r: Relocatable, v: MaybeRelocatable) -> Result<(), MemoryError> {
        let rc = self
            .builtin_runners
            .iter()
            .any(|b| b.kind == BuiltinName::range_check && b.base as isize == r.segment_index);
        if rc {
            let f = v.int().ok_or(MemoryError::RangeCheck)?;
            if f.to_u256().bits_le() > 128 {
                return Err(MemoryError::RangeCheck);
            }
        }
        let seg = self
            .segments
            .get_mut(r.segment_index as usize)
            .ok_or(MemoryError::UnallocatedSegment(r.segment_index))?;
        if r.offset > (1 << 24) {
            return Err(MemoryError::OffsetOutOfRange);
        }
        if seg.len() <= r.offset {
            seg.resize(r.offset + 1, None);
        }
        match &seg[r.offset] {
            Some(old) if *old != v => {
                Err(MemoryError::InconsistentMemory(r.segment_index, r.offset))
            }
            _ => {
                seg[r.offset] = Some(v);
                Ok(())
            }
        }
    }
    pub fn load_data(
        &mut self,
        ptr: Relocatable,
        data: &Vec<MaybeRelocatable>,
    ) -> Result<Relocatable, MemoryError> {
        for (i, v) in data.iter().enumerate() {
            self.insert_value((ptr + i)?, v.clone())?;
        }
        ptr + data.len()
    }
    pub fn get_builtin_runners(&self) -> &Vec<BuiltinRunner> {
        &self.builtin_runners
    }
    pub fn get_range_check_builtin(&self) -> Result<&BuiltinRunner, VirtualMachineError> {
        self.builtin_runners
            .iter()
            .find(|b| b.kind == BuiltinName::range_check)
            .ok_or(VirtualMachineError::NoRangeCheckBuiltin)
    }
    pub fn get_segment_size(&self, index: usize) -> Option<usize> {
        self.segments.get(index).map(|s| s.len())
    }
    pub fn get_segment_used_size(&self, index: usize) -> Option<usize> {
        self.get_segment_size(index)
    }
    pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
        if self.trace.is_none() {
            return Err(TraceError::TraceNotEnabled);
        }
        self.relocated_trace.as_ref().ok_or(TraceError::TraceNotRelocated)
    }

    pub(crate) fn step(&mut self, hints: &mut dyn HintProcessor) -> Result<(), VirtualMachineError> {
        use VirtualMachineError::*;
        if self.pc.segment_index == 0 {
            hints.execute_hints(self.pc.offset, self)?;
        }
        let word = self
            .get_maybe(&self.pc)
            .and_then(|m| m.int())
            .and_then(|f| f.to_u64())
            .ok_or(InvalidInstructionEncoding)?;
        if word >> 63 != 0 {
            return Err(InvalidInstructionEncoding);
        }
        let off = |i: u32| ((word >> (16 * i)) & 0xffff) as i64 - (1 << 15);
        let (o0, o1, o2) = (off(0), off(1), off(2));
        let flags = word >> 48;
        let dst_fp = flags & 1 == 1;
        let op0_fp = (flags >> 1) & 1 == 1;
        let op1_src = (flags >> 2) & 7;
        let res_logic = (flags >> 5) & 3;
        let pc_update = (flags >> 7) & 7;
        let ap_update = (flags >> 10) & 3;
        let opcode = (flags >> 12) & 7;
        if !matches!(op1_src, 0 | 1 | 2 | 4) {
            return Err(InvalidField("op1_src"));
        }
        if res_logic == 3 {
            return Err(InvalidField("res_logic"));
        }
        if !matches!(pc_update, 0 | 1 | 2 | 4) {
            return Err(InvalidField("pc_update"));
        }
        if ap_update == 3 {
            return Err(InvalidField("ap_update"));
        }
        if !matches!(opcode, 0 | 1 | 2 | 4) {
            return Err(InvalidField("opcode"));
        }
        let size: usize = if op1_src == 1 { 2 } else { 1 };
        let dst_addr = if dst_fp { self.fp } else { self.ap }.shift(o0)?;
        let op0_addr = if op0_fp { self.fp } else { self.ap }.shift(o1)?;
        let op0_known = self.get_maybe(&op0_addr);
        let op1_addr = match op1_src {
            0 => op0_known.clone().and_then(|m| m.rel()).ok_or(UnknownOp("op0"))?.shift(o2)?,
            1 => self.pc.shift(o2)?,
            2 => self.fp.shift(o2)?,
            _ => self.ap.shift(o2)?,
        };
        let mut dst = self.get_maybe(&dst_addr);
        let mut op0 = op0_known;
        let mut op1 = self.get_maybe(&op1_addr);
        let next_pc = self.pc.shift(size as i64)?;
        // Operand deduction
        if op0.is_none() {
            op0 = match opcode {
                1 => Some(next_pc.into()),
                4 => match (res_logic, &dst, &op1) {
                    (1, Some(d), Some(b)) => Some(d.sub(b)?),
                    (2, Some(d), Some(b)) => match (d.int(), b.int()) {
                        (Some(d), Some(b)) => b.inv().map(|i| (d * i).into()),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
        }
        if op1.is_none() {
            op1 = match opcode {
                4 => match (res_logic, &dst, &op0) {
                    (0, Some(d), _) => Some(d.clone()),
                    (1, Some(d), Some(a)) => Some(d.sub(a)?),
                    (2, Some(d), Some(a)) => match (d.int(), a.int()) {
                        (Some(d), Some(a)) => a.inv().map(|i| (d * i).into()),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
        }
        // Operands that do not take part in the instruction still get a cell.
        let op1 = match op1 {
            Some(v) => v,
            None => return Err(UnknownOp("op1")),
        };
        let op0 = match op0 {
            Some(v) => v,
            None if res_logic == 0 => MaybeRelocatable::Int(Felt252::zero()),
            None => return Err(UnknownOp("op0")),
        };
        let res: Option<MaybeRelocatable> = if pc_update == 4 {
            None
        } else {
            Some(match res_logic {
                0 => op1.clone(),
                1 => op0.add(&op1)?,
                _ => op0.mul(&op1)?,
            })
        };
        if dst.is_none() {
            dst = match opcode {
                4 => res.clone(),
                1 => Some(self.fp.into()),
                _ => Some(MaybeRelocatable::Int(Felt252::zero())),
            };
        }
        let dst = dst.ok_or(UnknownOp("dst"))?;
        match opcode {
            4 if res.as_ref() != Some(&dst) => return Err(DiffAssertValues),
            1 if op0 != next_pc.into() || dst != self.fp.into() => return Err(CantWriteReturn),
            _ => {}
        }
        self.insert_value(dst_addr, dst.clone())?;
        self.insert_value(op0_addr, op0)?;
        self.insert_value(op1_addr, op1.clone())?;
        if let Some(t) = self.trace.as_mut() {
            t.push((self.pc, self.ap, self.fp));
        }
        let jump_rel = |v: &MaybeRelocatable, pc: Relocatable| -> Result<Relocatable, VirtualMachineError> {
            let d = v.int().and_then(|f| f.to_i64()).ok_or(PureValue)?;
            Ok(pc.shift(d)?)
        };
        let new_pc = match pc_update {
            0 => next_pc,
            1 => res.as_ref().and_then(|r| r.rel()).ok_or(PureValue)?,
            2 => jump_rel(res.as_ref().ok_or(PureValue)?, self.pc)?,
            _ => {
                let zero = dst.int().map(|f| f.is_zero()).unwrap_or(false);
                if zero {
                    next_pc
                } else {
                    jump_rel(&op1, self.pc)?
                }
            }
        };
        let new_ap = match ap_update {
            1 => {
                let r = res.as_ref().ok_or(UnknownOp("res"))?;
                self.ap.shift(r.int().and_then(|f| f.to_i64()).ok_or(PureValue)?)?
            }
            2 => self.ap.shift(1)?,
            _ if opcode == 1 => self.ap.shift(2)?,
            _ => self.ap,
        };
        let new_fp = match opcode {
            1 => self.ap.shift(2)?,
            2 => match dst {
                MaybeRelocatable::RelocatableValue(r) => r,
                MaybeRelocatable::Int(f) => self
                    .ap
                    .shift(0)
                    .map(|a| Relocatable { offset: f.to_u64().unwrap_or(0) as usize, ..a })?,
            },
            _ => self.fp,
        };
        self.pc = new_pc;
        self.ap = new_ap;
        self.fp = new_fp;
        Ok(())
    }

    pub(crate) fn run_until(
        &mut self,
        end: Relocatable,
        hints: &mut dyn HintProcessor,
    ) -> Result<(), VirtualMachineError> {
        let mut steps = 0;
        while self.pc != end {
            self.step(hints)?;
            steps += 1;
            if steps > MAX_STEPS {
                return Err(VirtualMachineError::StepLimit);
            }
        }
        Ok(())
    }

    pub(crate) fn relocation_table(&self) -> Vec<usize> {
        let mut t = vec![1];
        for s in &self.segments {
            t.push(t[t.len() - 1] + s.len());
        }
        t
    }
}
