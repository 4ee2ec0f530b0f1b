use super::transcript::Transcript;

#[derive(Clone, Default)]
pub struct TestTranscript;

impl Transcript for TestTranscript {
    fn append(&mut self, _new_data: &[u8]) {}

    fn challenge(&mut self) -> [u8; 32] {
        let mut result = [0_u8; 32];
        result[31] = 1;
        result
    }
}

impl TestTranscript {
    pub fn new() -> Self {
        Self
    }
}
