pub mod builtin_hint_processor;
pub mod cairo_1_hint_processor;
pub mod hint_processor_definition {
    use crate::vm::errors::vm_errors::VirtualMachineError;
    use crate::vm::vm_core::VirtualMachine;
    pub trait HintProcessor {
        /// Runs the hints attached to program offset `pc`.
        fn execute_hints(&mut self, pc: usize, vm: &mut VirtualMachine)
            -> Result<(), VirtualMachineError>;
    }
}
