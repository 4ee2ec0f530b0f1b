use crate::felt::Felt252;
use crate::hint_processor::hint_processor_definition::HintProcessor;
use crate::serde::deserialize_program::BuiltinName;
use crate::types::program::Program;
use crate::types::relocatable::{MaybeRelocatable, Relocatable};
use crate::vm::errors::{
    cairo_run_errors::CairoRunError, runner_errors::RunnerError, trace_errors::TraceError,
};
use crate::vm::runners::builtin_runner::BuiltinRunner;
use crate::vm::trace::trace_entry::TraceEntry;
use crate::vm::vm_core::VirtualMachine;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CairoArg {
    Single(MaybeRelocatable),
    Array(Vec<MaybeRelocatable>),
    Composed(Vec<CairoArg>),
}
impl From<MaybeRelocatable> for CairoArg {
    fn from(m: MaybeRelocatable) -> Self {
        CairoArg::Single(m)
    }
}
impl From<Vec<MaybeRelocatable>> for CairoArg {
    fn from(m: Vec<MaybeRelocatable>) -> Self {
        CairoArg::Array(m)
    }
}

#[derive(Default, Clone, Debug)]
pub struct RunResources {
    n_steps: Option<usize>,
}
impl RunResources {
    pub fn new(n_steps: usize) -> Self {
        Self { n_steps: Some(n_steps) }
    }
    pub fn get_n_steps(&self) -> Option<usize> {
        self.n_steps
    }
}

pub struct CairoRunner {
    pub(crate) program: Program,
    layout: String,
    pub program_base: Option<Relocatable>,
    execution_base: Option<Relocatable>,
    pub relocated_memory: Vec<Option<Felt252>>,
}

thread_local! {
    static LAYOUTS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Not part of the real crate: the layouts this thread asked for since the last call.
pub fn layouts_asked() -> Vec<String> {
    LAYOUTS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

impl CairoRunner {
    pub fn new(program: &Program, layout: &str, _proof_mode: bool) -> Result<Self, RunnerError> {
        LAYOUTS.with(|l| l.borrow_mut().push(layout.to_string()));
        if !matches!(
            layout,
            "plain" | "small" | "dex" | "starknet" | "starknet_with_keccak" | "recursive_large_output"
                | "all_cairo" | "all_solidity" | "dynamic" | "recursive"
        ) {
            return Err(RunnerError::InvalidLayoutName(layout.to_string()));
        }
        Ok(Self {
            program: program.clone(),
            layout: layout.to_string(),
            program_base: None,
            execution_base: None,
            relocated_memory: vec![],
        })
    }
    pub fn get_program(&self) -> &Program {
        &self.program
    }
    pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
        &self.program.builtins
    }

    fn initialize_segments(&mut self, vm: &mut VirtualMachine) {
        self.program_base = Some(vm.add_memory_segment());
        self.execution_base = Some(vm.add_memory_segment());
        for i in 0..vm.builtin_runners.len() {
            let s = vm.add_memory_segment();
            vm.builtin_runners[i].base = s.segment_index as usize;
        }
    }

    pub(crate) fn initialize(&mut self, vm: &mut VirtualMachine) -> Result<Relocatable, RunnerError> {
        // `output` precedes `range_check` in every layout.
        let order = [BuiltinName::output, BuiltinName::range_check];
        for b in &self.program.builtins {
            if !order.contains(b) || self.layout == "plain" {
                return Err(RunnerError::NoBuiltinForInstance(b.name().to_string()));
            }
        }
        for kind in order {
            if self.program.builtins.contains(&kind) {
                vm.builtin_runners.push(BuiltinRunner { kind, base: 0, stop_ptr: None, included: true });
            }
        }
        self.initialize_segments(vm);
        let stack: Vec<MaybeRelocatable> =
            vm.builtin_runners.iter().flat_map(|b| b.initial_stack()).collect();
        let return_fp = vm.add_memory_segment();
        let main = self.program.main.ok_or(RunnerError::MissingMain)?;
        self.initialize_function_entrypoint(vm, main, stack, return_fp.into())
    }

    fn initialize_function_entrypoint(
        &mut self,
        vm: &mut VirtualMachine,
        entrypoint: usize,
        mut stack: Vec<MaybeRelocatable>,
        return_fp: MaybeRelocatable,
    ) -> Result<Relocatable, RunnerError> {
        let end = vm.add_memory_segment();
        stack.push(return_fp);
        stack.push(end.into());
        let (pb, eb) = (self.program_base.unwrap(), self.execution_base.unwrap());
        vm.load_data(pb, &self.program.data.clone())?;
        vm.load_data(eb, &stack)?;
        vm.pc = (pb + entrypoint)?;
        vm.ap = (eb + stack.len())?;
        vm.fp = vm.ap;
        Ok(end)
    }

    pub fn initialize_function_runner_cairo_1(
        &mut self,
        vm: &mut VirtualMachine,
        program_builtins: &[BuiltinName],
    ) -> Result<(), RunnerError> {
        self.program.builtins = program_builtins.to_vec();
        for kind in program_builtins {
            if *kind != BuiltinName::range_check {
                return Err(RunnerError::NoBuiltinForInstance(kind.name().to_string()));
            }
            vm.builtin_runners.push(BuiltinRunner { kind: *kind, base: 0, stop_ptr: None, included: true });
        }
        self.initialize_segments(vm);
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    pub fn run_from_entrypoint(
        &mut self,
        entrypoint: usize,
        args: &[&CairoArg],
        _run_resources: &mut RunResources,
        verify_secure: bool,
        program_segment_size: Option<usize>,
        vm: &mut VirtualMachine,
        hint_processor: &mut dyn HintProcessor,
    ) -> Result<(), CairoRunError> {
        let mut stack = vec![];
        for a in args {
            match a {
                CairoArg::Single(m) => stack.push(m.clone()),
                CairoArg::Array(v) => {
                    let s = vm.add_memory_segment();
                    vm.load_data(s, v)?;
                    stack.push(s.into());
                }
                CairoArg::Composed(_) => {
                    return Err(RunnerError::NoBuiltinForInstance("composed".into()).into())
                }
            }
        }
        let end = self.initialize_function_entrypoint(vm, entrypoint, stack, 0usize.into())?;
        vm.run_until(end, hint_processor)?;
        if verify_secure {
            // nothing is written behind what was announced as the program
            let len = program_segment_size.unwrap_or_else(|| self.program.data_len());
            let used = self.program_base.map_or(0, |b| vm.segments[b.segment_index as usize].len());
            if used > len {
                return Err(crate::vm::errors::vm_errors::VirtualMachineError::OutOfBoundsProgramSegmentAccess.into());
            }
        }
        Ok(())
    }

    pub(crate) fn read_return_values(&mut self, vm: &mut VirtualMachine) -> Result<(), RunnerError> {
        let mut ptr = vm.ap;
        for i in (0..vm.builtin_runners.len()).rev() {
            let name = vm.builtin_runners[i].name();
            ptr = ptr.shift(-1)?;
            let stop = vm
                .get_maybe(&ptr)
                .and_then(|m| m.rel())
                .ok_or(RunnerError::NoStopPointer(name))?;
            let base = vm.builtin_runners[i].base;
            if stop.segment_index != base as isize || stop.offset != vm.segments[base].len() {
                return Err(RunnerError::InvalidStopPointer(name));
            }
            vm.builtin_runners[i].stop_ptr = Some(stop.offset);
        }
        Ok(())
    }

    pub fn relocate(&mut self, vm: &mut VirtualMachine, relocate_mem: bool) -> Result<(), TraceError> {
        let table = vm.relocation_table();
        let addr = |r: &Relocatable| table[r.segment_index as usize] + r.offset;
        if relocate_mem {
            self.relocated_memory = vec![None];
            for seg in &vm.segments {
                for cell in seg {
                    self.relocated_memory.push(cell.as_ref().map(|c| match c {
                        MaybeRelocatable::Int(f) => *f,
                        MaybeRelocatable::RelocatableValue(r) => Felt252::from(addr(r)),
                    }));
                }
            }
        }
        let t = vm.trace.as_ref().ok_or(TraceError::TraceNotEnabled)?;
        vm.relocated_trace = Some(
            t.iter()
                .map(|(pc, ap, fp)| TraceEntry { pc: addr(pc), ap: addr(ap), fp: addr(fp) })
                .collect(),
        );
        Ok(())
    }
}
