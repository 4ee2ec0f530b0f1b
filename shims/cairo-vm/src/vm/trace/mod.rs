pub mod trace_entry {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct TraceEntry {
        pub pc: usize,
        pub ap: usize,
        pub fp: usize,
    }
}
