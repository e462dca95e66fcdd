use serde::{Deserialize, Serialize};

use super::poseidon2::Poseidon2;
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64, Sample};
use crate::iop::target::Target;
use crate::plonk::config::GenericHashOut;

pub trait RichField: PrimeField64 + Poseidon2 {}
impl RichField for GoldilocksField {}

pub const NUM_HASH_OUT_ELTS: usize = 4;

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct HashOut<F: Field> {
    pub elements: [F; NUM_HASH_OUT_ELTS],
}
impl<F: Field> HashOut<F> {
    pub const ZERO: Self = Self { elements: [F::ZERO; NUM_HASH_OUT_ELTS] };

    pub fn from_vec(elements: Vec<F>) -> Self {
        assert!(elements.len() == NUM_HASH_OUT_ELTS);
        Self { elements: elements.try_into().unwrap() }
    }
    pub fn from_partial(e: &[F]) -> Self {
        let mut elements = [F::ZERO; NUM_HASH_OUT_ELTS];
        elements[..e.len()].copy_from_slice(e);
        Self { elements }
    }
}
impl<F: Field> From<[F; NUM_HASH_OUT_ELTS]> for HashOut<F> {
    fn from(elements: [F; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } }
}
impl<F: Field> TryFrom<&[F]> for HashOut<F> {
    type Error = anyhow::Error;
    fn try_from(e: &[F]) -> Result<Self, Self::Error> {
        anyhow::ensure!(e.len() == NUM_HASH_OUT_ELTS);
        Ok(Self { elements: e.try_into().unwrap() })
    }
}
impl<F: Field> Default for HashOut<F> {
    fn default() -> Self { Self::ZERO }
}
impl<F: Field> Sample for HashOut<F> {
    fn sample_u64(n: &mut dyn FnMut() -> u64) -> Self {
        Self { elements: core::array::from_fn(|_| F::sample_u64(n)) }
    }
}
impl<F: RichField> GenericHashOut<F> for HashOut<F> {
    fn to_bytes(&self) -> Vec<u8> {
        self.elements.iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect()
    }
    fn from_bytes(bytes: &[u8]) -> Self {
        HashOut {
            elements: bytes
                .chunks(8)
                .take(NUM_HASH_OUT_ELTS)
                .map(|x| F::from_canonical_u64(u64::from_le_bytes(x.try_into().unwrap())))
                .collect::<Vec<_>>()
                .try_into()
                .unwrap(),
        }
    }
    fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct HashOutTarget {
    pub elements: [Target; NUM_HASH_OUT_ELTS],
}
impl HashOutTarget {
    pub fn from_vec(elements: Vec<Target>) -> Self {
        assert!(elements.len() == NUM_HASH_OUT_ELTS);
        Self { elements: elements.try_into().unwrap() }
    }
}
impl From<[Target; NUM_HASH_OUT_ELTS]> for HashOutTarget {
    fn from(elements: [Target; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } }
}
impl TryFrom<&[Target]> for HashOutTarget {
    type Error = anyhow::Error;
    fn try_from(e: &[Target]) -> Result<Self, Self::Error> {
        anyhow::ensure!(e.len() == NUM_HASH_OUT_ELTS);
        Ok(Self { elements: e.try_into().unwrap() })
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
