use crate::hint_processor::hint_processor_definition::HintProcessor;
use crate::types::program::Program;
use crate::vm::errors::cairo_run_errors::CairoRunError;
use crate::vm::errors::vm_errors::VirtualMachineError;
use crate::vm::runners::cairo_runner::CairoRunner;
use crate::vm::vm_core::VirtualMachine;
use thiserror::Error;

pub struct CairoRunConfig<'a> {
    pub entrypoint: &'a str,
    pub trace_enabled: bool,
    pub relocate_mem: bool,
    pub layout: &'a str,
    pub proof_mode: bool,
    pub secure_run: Option<bool>,
}

impl Default for CairoRunConfig<'_> {
    fn default() -> Self {
        CairoRunConfig {
            entrypoint: "main",
            trace_enabled: false,
            relocate_mem: false,
            layout: "plain",
            proof_mode: false,
            secure_run: None,
        }
    }
}

#[derive(Debug, Error)]
#[error("Failed to encode trace at position {0}, serialize error: {1}")]
pub struct EncodeTraceError(pub usize, pub String);

pub fn cairo_run(
    program_content: &[u8],
    config: &CairoRunConfig,
    hint_executor: &mut dyn HintProcessor,
) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
    let program = Program::from_bytes(program_content, Some(config.entrypoint))?;
    if program.has_hints {
        return Err(VirtualMachineError::UnsupportedHint.into());
    }
    let mut runner = CairoRunner::new(&program, config.layout, config.proof_mode)?;
    let mut vm = VirtualMachine::new(config.trace_enabled);
    let end = runner.initialize(&mut vm)?;
    vm.run_until(end, hint_executor)?;
    runner.read_return_values(&mut vm)?;
    runner.relocate(&mut vm, config.relocate_mem)?;
    Ok((runner, vm))
}
