pub mod builtin_hint_processor_definition {
    use crate::hint_processor::hint_processor_definition::HintProcessor;
    use crate::vm::errors::vm_errors::VirtualMachineError;
    use crate::vm::vm_core::VirtualMachine;
    #[derive(Default)]
    pub struct BuiltinHintProcessor {}
    impl BuiltinHintProcessor {
        pub fn new_empty() -> Self {
            Self {}
        }
    }
    impl HintProcessor for BuiltinHintProcessor {
        fn execute_hints(&mut self, _: usize, _: &mut VirtualMachine)
            -> Result<(), VirtualMachineError> {
            Ok(())
        }
    }
}
