pub mod memory_errors {
    use thiserror::Error;
    #[derive(Debug, Error, PartialEq, Clone)]
    pub enum MemoryError {
        #[error("offset out of range")]
        OffsetOutOfRange,
        #[error("inconsistent memory assignment at {0}:{1}")]
        InconsistentMemory(isize, usize),
        #[error("unallocated segment {0}")]
        UnallocatedSegment(isize),
        #[error("range check failed")]
        RangeCheck,
        #[error("invalid operation: {0}")]
        InvalidOperation(&'static str),
    }
}
pub mod vm_errors {
    use super::memory_errors::MemoryError;
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum VirtualMachineError {
        #[error(transparent)]
        Memory(#[from] MemoryError),
        #[error("invalid instruction encoding")]
        InvalidInstructionEncoding,
        #[error("invalid {0} value")]
        InvalidField(&'static str),
        #[error("unknown operand {0}")]
        UnknownOp(&'static str),
        #[error("assertion failed")]
        DiffAssertValues,
        #[error("cannot return")]
        CantWriteReturn,
        #[error("jump to a non-relocatable address")]
        PureValue,
        #[error("unsupported hint")]
        UnsupportedHint,
        #[error("step limit reached")]
        StepLimit,
        #[error("no range check builtin")]
        NoRangeCheckBuiltin,
        #[error("write behind the program")]
        OutOfBoundsProgramSegmentAccess,
    }
}
pub mod trace_errors {
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum TraceError {
        #[error("Trace is not enabled for this run")]
        TraceNotEnabled,
        #[error("Trace is not relocated")]
        TraceNotRelocated,
    }
}
pub mod runner_errors {
    use super::memory_errors::MemoryError;
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum RunnerError {
        #[error(transparent)]
        Memory(#[from] MemoryError),
        #[error("invalid layout {0}")]
        InvalidLayoutName(String),
        #[error("builtin {0} unsupported or absent from the layout")]
        NoBuiltinForInstance(String),
        #[error("missing main")]
        MissingMain,
        #[error("invalid stop pointer for {0}")]
        InvalidStopPointer(&'static str),
        #[error("no stop pointer for {0}")]
        NoStopPointer(&'static str),
    }
}
pub mod cairo_run_errors {
    use super::{
        memory_errors::MemoryError, runner_errors::RunnerError, trace_errors::TraceError,
        vm_errors::VirtualMachineError,
    };
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum ProgramError {
        #[error("cannot parse the program: {0}")]
        Parse(String),
        #[error("Entrypoint {0} not found")]
        EntrypointNotFound(String),
    }
    #[derive(Debug, Error)]
    pub enum CairoRunError {
        #[error(transparent)]
        Program(#[from] ProgramError),
        #[error(transparent)]
        Runner(#[from] RunnerError),
        #[error(transparent)]
        Trace(#[from] TraceError),
        #[error(transparent)]
        VirtualMachine(#[from] VirtualMachineError),
        #[error(transparent)]
        MemoryError(#[from] MemoryError),
    }
}
