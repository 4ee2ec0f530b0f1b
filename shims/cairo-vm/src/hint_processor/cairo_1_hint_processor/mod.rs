pub mod hint_processor {
    use crate::felt::Felt252;
    use crate::hint_processor::hint_processor_definition::HintProcessor;
    use crate::types::relocatable::{MaybeRelocatable, Relocatable};
    use crate::vm::errors::vm_errors::VirtualMachineError;
    use crate::vm::vm_core::VirtualMachine;
    use cairo_lang_starknet::casm_contract_class::Hint;
    use std::collections::HashMap;

    pub struct Cairo1HintProcessor {
        hints: HashMap<usize, Vec<Hint>>,
    }

    impl Cairo1HintProcessor {
        pub fn new(hints: &[(usize, Vec<Hint>)]) -> Self {
            Self { hints: hints.iter().cloned().collect() }
        }
    }

    fn bad() -> VirtualMachineError {
        VirtualMachineError::UnsupportedHint
    }

    fn cell(vm: &VirtualMachine, c: &Hint) -> Result<Relocatable, VirtualMachineError> {
        let base = match c["register"].as_str() {
            Some("AP") => vm.get_ap(),
            Some("FP") => vm.get_fp(),
            _ => return Err(bad()),
        };
        Ok(base.shift(c["offset"].as_i64().ok_or_else(bad)?)?)
    }

    fn operand(vm: &VirtualMachine, o: &Hint) -> Result<Felt252, VirtualMachineError> {
        if let Some(i) = o.get("Immediate") {
            return Felt252::from_hex(i.as_str().ok_or_else(bad)?).ok_or_else(bad);
        }
        if let Some(d) = o.get("Deref") {
            return vm.get_maybe(&cell(vm, d)?).and_then(|m| m.int()).ok_or_else(bad);
        }
        Err(bad())
    }

    impl HintProcessor for Cairo1HintProcessor {
        fn execute_hints(&mut self, pc: usize, vm: &mut VirtualMachine)
            -> Result<(), VirtualMachineError> {
            for h in self.hints.get(&pc).into_iter().flatten() {
                if let Some(t) = h.get("TestLessThanOrEqual") {
                    let r = operand(vm, &t["lhs"])? <= operand(vm, &t["rhs"])?;
                    let dst = cell(vm, &t["dst"])?;
                    vm.insert_value(dst, MaybeRelocatable::from(r as usize))?;
                } else if let Some(t) = h.get("TestLessThan") {
                    let r = operand(vm, &t["lhs"])? < operand(vm, &t["rhs"])?;
                    let dst = cell(vm, &t["dst"])?;
                    vm.insert_value(dst, MaybeRelocatable::from(r as usize))?;
                } else if let Some(t) = h.get("AllocSegment") {
                    let dst = cell(vm, &t["dst"])?;
                    let s = vm.add_memory_segment();
                    vm.insert_value(dst, s.into())?;
                } else {
                    return Err(bad());
                }
            }
            Ok(())
        }
    }
}
