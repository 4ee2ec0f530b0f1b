use crate::serde::deserialize_program::BuiltinName;
use crate::types::relocatable::{MaybeRelocatable, Relocatable};

#[derive(Clone, Debug)]
pub struct BuiltinRunner {
    pub(crate) kind: BuiltinName,
    pub(crate) base: usize,
    pub(crate) stop_ptr: Option<usize>,
    pub(crate) included: bool,
}
pub type RangeCheckBuiltinRunner = BuiltinRunner;

impl BuiltinRunner {
    pub fn name(&self) -> &'static str {
        self.kind.name()
    }
    pub fn base(&self) -> usize {
        self.base
    }
    pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
        if self.included {
            vec![Relocatable { segment_index: self.base as isize, offset: 0 }.into()]
        } else {
            vec![]
        }
    }
    pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
        (self.base, self.stop_ptr)
    }
}
