use super::traits::IsMerkleTreeBackend;

pub fn sibling_index(node_index: usize) -> usize {
    if node_index % 2 == 0 {
        node_index - 1
    } else {
        node_index + 1
    }
}

pub fn parent_index(node_index: usize) -> usize {
    if node_index % 2 == 0 {
        (node_index - 1) / 2
    } else {
        node_index / 2
    }
}

/// Repeats the last value until the length is a power of two.
pub fn complete_until_power_of_two<T: Clone>(values: &mut Vec<T>) -> Vec<T> {
    while !values.len().is_power_of_two() {
        values.push(values[values.len() - 1].clone());
    }
    values.to_vec()
}

/// `nodes` holds the inner nodes first (root at 0), then the leaves.
pub fn build<B: IsMerkleTreeBackend>(nodes: &mut [B::Node], leaves: usize) {
    for i in (0..leaves - 1).rev() {
        nodes[i] = B::hash_new_parent(&nodes[2 * i + 1], &nodes[2 * i + 2]);
    }
}
