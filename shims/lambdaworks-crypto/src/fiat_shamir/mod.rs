pub mod default_transcript;
pub mod test_transcript;
pub mod transcript;
/// Not part of the upstream crate: lets a harness observe the message history.
pub mod recorder;
