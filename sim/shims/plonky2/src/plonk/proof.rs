use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::hash::hash_types::{HashOut, RichField};
use crate::iop::target::Target;
use crate::plonk::config::GenericConfig;

/// Ideal proof: a tag only the ideal prover can issue.
#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub tag: HashOut<F>,
    #[serde(skip)]
    pub _c: core::marker::PhantomData<C>,
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub proof: Proof<F, C, D>,
    pub public_inputs: Vec<F>,
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ProofTarget<const D: usize> {
    pub tag: [Target; 4],
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ProofWithPublicInputsTarget<const D: usize> {
    pub proof: ProofTarget<D>,
    pub public_inputs: Vec<Target>,
}
