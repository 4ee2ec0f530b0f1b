use super::{
    proof::Proof,
    traits::IsMerkleTreeBackend,
    utils::{build, complete_until_power_of_two, parent_index, sibling_index},
};
use std::fmt::{self, Display};

#[derive(Debug)]
pub enum Error {
    OutOfBounds,
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Accessed node was out of bound")
    }
}
impl std::error::Error for Error {}

#[derive(Clone)]
pub struct MerkleTree<B: IsMerkleTreeBackend> {
    pub root: B::Node,
    nodes: Vec<B::Node>,
}

const ROOT: usize = 0;

impl<B: IsMerkleTreeBackend> MerkleTree<B> {
    pub fn build(unhashed_leaves: &[B::Data]) -> Self {
        let mut hashed_leaves: Vec<B::Node> = B::hash_leaves(unhashed_leaves);
        let hashed_leaves = complete_until_power_of_two(&mut hashed_leaves);
        let n = hashed_leaves.len();
        let mut nodes = vec![hashed_leaves[0].clone(); n - 1];
        nodes.extend(hashed_leaves);
        build::<B>(&mut nodes, n);
        MerkleTree { root: nodes[ROOT].clone(), nodes }
    }

    pub fn get_proof_by_pos(&self, pos: usize) -> Option<Proof<B::Node>> {
        let pos = pos + self.nodes.len() / 2;
        let merkle_path = self.build_merkle_path(pos).ok()?;
        Some(Proof { merkle_path })
    }

    fn build_merkle_path(&self, pos: usize) -> Result<Vec<B::Node>, Error> {
        let mut merkle_path = Vec::new();
        let mut pos = pos;
        while pos != ROOT {
            let Some(node) = self.nodes.get(sibling_index(pos)) else {
                return Err(Error::OutOfBounds);
            };
            merkle_path.push(node.clone());
            pos = parent_index(pos);
        }
        Ok(merkle_path)
    }
}
