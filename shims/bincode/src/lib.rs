//! Offline stand-in: the two items of bincode 2.0.0-rc.2 the prover uses.
pub mod enc {
    pub mod write {
        pub trait Writer {
            fn write(&mut self, bytes: &[u8]) -> Result<(), crate::error::EncodeError>;
        }
    }
}
pub mod error {
    #[non_exhaustive]
    #[derive(Debug)]
    pub enum EncodeError {
        UnexpectedEnd,
        Io { inner: std::io::Error, index: usize },
        OtherString(String),
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EncodeError {}
}
