//! Executable stand-in for `lambdaworks-crypto` at rev a17b951 (see lambdaworks-math).
pub mod fiat_shamir {
    pub mod transcript {
        pub trait Transcript {
            fn append(&mut self, new_data: &[u8]);
            fn challenge(&mut self) -> [u8; 32];
        }
    }
    pub mod default_transcript {
        use super::transcript::Transcript;
        use sha3::{Digest, Keccak256};
        pub struct DefaultTranscript {
            hasher: Keccak256,
        }
        impl Transcript for DefaultTranscript {
            fn append(&mut self, new_data: &[u8]) {
                self.hasher.update(new_data);
            }
            fn challenge(&mut self) -> [u8; 32] {
                let mut result_hash: [u8; 32] = self.hasher.finalize_reset().into();
                result_hash.reverse();
                self.hasher.update(result_hash);
                result_hash
            }
        }
        impl Default for DefaultTranscript {
            fn default() -> Self {
                Self::new()
            }
        }
        impl DefaultTranscript {
            pub fn new() -> Self {
                Self {
                    hasher: Keccak256::new(),
                }
            }
        }
    }
    pub mod test_transcript {
        use super::transcript::Transcript;
        pub struct TestTranscript;
        impl Transcript for TestTranscript {
            fn append(&mut self, _new_data: &[u8]) {}
            fn challenge(&mut self) -> [u8; 32] {
                [1; 32]
            }
        }
        impl Default for TestTranscript {
            fn default() -> Self {
                Self::new()
            }
        }
        impl TestTranscript {
            pub fn new() -> Self {
                Self {}
            }
        }
    }
}
pub mod merkle_tree {
    pub mod traits {
        pub trait IsMerkleTreeBackend {
            type Node: PartialEq + Eq + Clone + core::fmt::Debug;
            type Data;
            fn hash_data(leaf: &Self::Data) -> Self::Node;
            fn hash_leaves(unhashed_leaves: &[Self::Data]) -> Vec<Self::Node> {
                unhashed_leaves.iter().map(|l| Self::hash_data(l)).collect()
            }
            fn hash_new_parent(child_1: &Self::Node, child_2: &Self::Node) -> Self::Node;
        }
    }
    pub mod proof {
        use super::traits::IsMerkleTreeBackend;
        use lambdaworks_math::errors::DeserializationError;
        use lambdaworks_math::traits::{Deserializable, Serializable};
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct Proof<T: PartialEq + Eq> {
            pub merkle_path: Vec<T>,
        }
        impl<T: PartialEq + Eq> Proof<T> {
            pub fn verify<B>(&self, root_hash: &B::Node, mut index: usize, value: &B::Data) -> bool
            where
                B: IsMerkleTreeBackend<Node = T>,
            {
                let mut hashed_value = B::hash_data(value);
                for sibling_node in self.merkle_path.iter() {
                    if index % 2 == 0 {
                        hashed_value = B::hash_new_parent(&hashed_value, sibling_node);
                    } else {
                        hashed_value = B::hash_new_parent(sibling_node, &hashed_value);
                    }
                    index >>= 1;
                }
                root_hash == &hashed_value
            }
        }
        impl<T: Serializable + PartialEq + Eq> Serializable for Proof<T> {
            fn serialize(&self) -> Vec<u8> {
                self.merkle_path.iter().flat_map(|n| n.serialize()).collect()
            }
        }
        impl<T: Deserializable + PartialEq + Eq> Deserializable for Proof<T> {
            fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> {
                let mut merkle_path = Vec::new();
                for elem in bytes.chunks(32) {
                    merkle_path.push(T::deserialize(elem)?);
                }
                Ok(Self { merkle_path })
            }
        }
    }
    pub mod merkle {
        use super::{proof::Proof, traits::IsMerkleTreeBackend};
        #[derive(Clone, Debug)]
        pub struct MerkleTree<B: IsMerkleTreeBackend> {
            pub root: B::Node,
            nodes: Vec<B::Node>,
        }
        impl<B: IsMerkleTreeBackend> MerkleTree<B> {
            pub fn build(unhashed_leaves: &[B::Data]) -> Self {
                let mut hashed = B::hash_leaves(unhashed_leaves);
                // The leaves must be a power of two: repeat the last one.
                while !hashed.len().is_power_of_two() {
                    hashed.push(hashed[hashed.len() - 1].clone());
                }
                let n = hashed.len();
                let mut nodes = vec![hashed[0].clone(); n - 1];
                nodes.extend(hashed);
                for i in (0..n - 1).rev() {
                    nodes[i] = B::hash_new_parent(&nodes[2 * i + 1], &nodes[2 * i + 2]);
                }
                MerkleTree {
                    root: nodes[0].clone(),
                    nodes,
                }
            }
            pub fn get_proof_by_pos(&self, pos: usize) -> Option<Proof<B::Node>> {
                let mut pos = pos + self.nodes.len() / 2;
                if pos >= self.nodes.len() {
                    return None;
                }
                let mut merkle_path = Vec::new();
                while pos != 0 {
                    let sib = if pos % 2 == 1 { pos + 1 } else { pos - 1 };
                    merkle_path.push(self.nodes.get(sib)?.clone());
                    pos = (pos - 1) / 2;
                }
                Some(Proof { merkle_path })
            }
        }
    }
    pub mod backends {
        pub mod field_element {
            use crate::merkle_tree::traits::IsMerkleTreeBackend;
            use core::marker::PhantomData;
            use lambdaworks_math::field::{element::FieldElement, traits::IsField};
            use lambdaworks_math::traits::ByteConversion;
            use sha3::{digest::OutputSizeUser, digest::generic_array::GenericArray, Digest};
            #[derive(Clone, Debug)]
            pub struct FieldElementBackend<F, D: Digest, const NUM_BYTES: usize> {
                phantom1: PhantomData<F>,
                phantom2: PhantomData<D>,
            }
            impl<F, D: Digest, const N: usize> IsMerkleTreeBackend for FieldElementBackend<F, D, N>
            where
                F: IsField,
                FieldElement<F>: ByteConversion,
                [u8; N]: From<GenericArray<u8, <D as OutputSizeUser>::OutputSize>>,
            {
                type Node = [u8; N];
                type Data = FieldElement<F>;
                fn hash_data(input: &FieldElement<F>) -> [u8; N] {
                    let mut hasher = D::new();
                    hasher.update(input.to_bytes_be());
                    hasher.finalize().into()
                }
                fn hash_new_parent(left: &[u8; N], right: &[u8; N]) -> [u8; N] {
                    let mut hasher = D::new();
                    hasher.update(left);
                    hasher.update(right);
                    hasher.finalize().into()
                }
            }
        }
        pub mod field_element_vector {
            use crate::merkle_tree::traits::IsMerkleTreeBackend;
            use core::marker::PhantomData;
            use lambdaworks_math::field::{element::FieldElement, traits::IsField};
            use lambdaworks_math::traits::ByteConversion;
            use sha3::{digest::OutputSizeUser, digest::generic_array::GenericArray, Digest};
            #[derive(Clone, Debug)]
            pub struct FieldElementVectorBackend<F, D: Digest, const NUM_BYTES: usize> {
                phantom1: PhantomData<F>,
                phantom2: PhantomData<D>,
            }
            impl<F, D: Digest, const N: usize> IsMerkleTreeBackend for FieldElementVectorBackend<F, D, N>
            where
                F: IsField,
                FieldElement<F>: ByteConversion,
                [u8; N]: From<GenericArray<u8, <D as OutputSizeUser>::OutputSize>>,
            {
                type Node = [u8; N];
                type Data = Vec<FieldElement<F>>;
                fn hash_data(input: &Vec<FieldElement<F>>) -> [u8; N] {
                    let mut hasher = D::new();
                    for element in input.iter() {
                        hasher.update(element.to_bytes_be());
                    }
                    hasher.finalize().into()
                }
                fn hash_new_parent(left: &[u8; N], right: &[u8; N]) -> [u8; N] {
                    let mut hasher = D::new();
                    hasher.update(left);
                    hasher.update(right);
                    hasher.finalize().into()
                }
            }
        }
        pub mod types {
            use super::{field_element::FieldElementBackend, field_element_vector::FieldElementVectorBackend};
            use sha3::Keccak256;
            pub type Keccak256Tree<F> = FieldElementBackend<F, Keccak256, 32>;
            pub type BatchKeccak256Tree<F> = FieldElementVectorBackend<F, Keccak256, 32>;
        }
    }
}
