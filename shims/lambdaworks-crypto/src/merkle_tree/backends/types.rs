use sha3::{Keccak256, Keccak512, Sha3_256, Sha3_512};

use super::{field_element::FieldElementBackend, field_element_vector::FieldElementVectorBackend};

pub type Sha3_256Backend<F> = FieldElementBackend<F, Sha3_256, 32>;
pub type Keccak256Backend<F> = FieldElementBackend<F, Keccak256, 32>;
pub type Sha3_256Tree<F> = FieldElementBackend<F, Sha3_256, 32>;
pub type Keccak256Tree<F> = FieldElementBackend<F, Keccak256, 32>;
pub type Sha3_512Tree<F> = FieldElementBackend<F, Sha3_512, 64>;
pub type Keccak512Tree<F> = FieldElementBackend<F, Keccak512, 64>;

pub type BatchSha3_256Tree<F> = FieldElementVectorBackend<F, Sha3_256, 32>;
pub type BatchKeccak256Tree<F> = FieldElementVectorBackend<F, Keccak256, 32>;
pub type BatchSha3_512Tree<F> = FieldElementVectorBackend<F, Sha3_512, 64>;
pub type BatchKeccak512Tree<F> = FieldElementVectorBackend<F, Keccak512, 64>;
