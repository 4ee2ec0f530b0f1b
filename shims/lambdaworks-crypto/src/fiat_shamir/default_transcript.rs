use super::transcript::Transcript;
use sha3::{Digest, Keccak256};

#[derive(Clone)]
pub struct DefaultTranscript {
    hasher: Keccak256,
}

impl Transcript for DefaultTranscript {
    fn append(&mut self, new_data: &[u8]) {
        super::recorder::on_append(new_data);
        self.hasher.update(new_data);
    }

    fn challenge(&mut self) -> [u8; 32] {
        let mut result_hash = [0_u8; 32];
        result_hash.copy_from_slice(&self.hasher.finalize_reset());
        result_hash.reverse();
        self.hasher.update(result_hash);
        let result_hash = super::recorder::forced(result_hash);
        super::recorder::on_challenge(&result_hash);
        result_hash
    }
}

impl Default for DefaultTranscript {
    fn default() -> Self {
        Self::new()
    }
}

impl DefaultTranscript {
    pub fn new() -> Self {
        Self { hasher: Keccak256::new() }
    }
}
