use super::traits::IsMerkleTreeBackend;
use lambdaworks_math::errors::DeserializationError;
use lambdaworks_math::traits::{Deserializable, Serializable};

/// Authentication path from a leaf's sibling up to (excluding) the root.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Proof<T: PartialEq + Eq> {
    pub merkle_path: Vec<T>,
}

impl<T: PartialEq + Eq> Proof<T> {
    pub fn verify<B>(&self, root_hash: &B::Node, mut index: usize, value: &B::Data) -> bool
    where
        B: IsMerkleTreeBackend<Node = T>,
    {
        let mut hashed_value = B::hash_data(value);
        for sibling_node in self.merkle_path.iter() {
            if index % 2 == 0 {
                hashed_value = B::hash_new_parent(&hashed_value, sibling_node);
            } else {
                hashed_value = B::hash_new_parent(sibling_node, &hashed_value);
            }
            index >>= 1;
        }
        root_hash == &hashed_value
    }
}

impl<T> Serializable for Proof<T>
where
    T: Serializable + PartialEq + Eq,
{
    fn serialize(&self) -> Vec<u8> {
        self.merkle_path.iter().flat_map(|node| node.serialize()).collect()
    }
}

impl<T> Deserializable for Proof<T>
where
    T: Deserializable + PartialEq + Eq,
{
    fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> {
        let merkle_path =
            bytes.chunks(8).map(T::deserialize).collect::<Result<Vec<T>, _>>()?;
        Ok(Self { merkle_path })
    }
}
