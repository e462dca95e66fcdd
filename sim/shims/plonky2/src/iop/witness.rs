use std::collections::HashMap;

use super::target::{BoolTarget, Target};
use crate::field::extension::Extendable;
use crate::field::types::Field;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::circuit_data::{VerifierCircuitTarget, VerifierOnlyCircuitData};
use crate::plonk::config::{AlgebraicHasher, GenericConfig};
use crate::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};

pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, target: Target, value: F);

    fn set_target_arr(&mut self, targets: &[Target], values: &[F]) {
        assert_eq!(targets.len(), values.len(), "zip_eq: lengths differ");
        for (t, v) in targets.iter().zip(values) { self.set_target(*t, *v); }
    }
    fn set_hash_target(&mut self, ht: HashOutTarget, value: HashOut<F>) {
        for (t, v) in ht.elements.into_iter().zip(value.elements) { self.set_target(t, v); }
    }
    fn set_bool_target(&mut self, t: BoolTarget, v: bool) { self.set_target(t.target, F::from_bool(v)); }
    fn set_cap_target<H: AlgebraicHasher<F>>(&mut self, ct: &MerkleCapTarget, value: &MerkleCap<F, H>)
    where
        F: RichField, {
        assert_eq!(ct.0.len(), value.0.len());
        for (t, v) in ct.0.iter().zip(&value.0) { self.set_hash_target(*t, *v); }
    }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self,
        t: &ProofWithPublicInputsTarget<D>,
        p: &ProofWithPublicInputs<F, C, D>,
    ) where
        F: RichField + Extendable<D>,
        C::Hasher: AlgebraicHasher<F>, {
        self.set_target_arr(&t.public_inputs, &p.public_inputs);
        self.set_target_arr(&t.proof.tag, &p.proof.tag.elements);
    }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self,
        t: &VerifierCircuitTarget,
        v: &VerifierOnlyCircuitData<C, D>,
    ) where
        F: RichField + Extendable<D>,
        C::Hasher: AlgebraicHasher<F>, {
        self.set_cap_target(&t.constants_sigmas_cap, &v.constants_sigmas_cap);
        self.set_hash_target(t.circuit_digest, v.circuit_digest);
    }
}

pub trait Witness<F: Field>: WitnessWrite<F> {
    fn try_get_target(&self, target: Target) -> Option<F>;
    fn get_target(&self, t: Target) -> F { self.try_get_target(t).unwrap() }
    fn get_targets(&self, ts: &[Target]) -> Vec<F> { ts.iter().map(|t| self.get_target(*t)).collect() }
    fn contains(&self, t: Target) -> bool { self.try_get_target(t).is_some() }
}

#[derive(Clone, Debug)]
pub struct PartialWitness<F: Field> {
    pub target_values: HashMap<Target, F>,
    pub order: Vec<Target>,
}
impl<F: Field> Default for PartialWitness<F> {
    fn default() -> Self { Self { target_values: HashMap::new(), order: vec![] } }
}
impl<F: Field> PartialWitness<F> {
    pub fn new() -> Self { Self::default() }
}
impl<F: Field> WitnessWrite<F> for PartialWitness<F> {
    fn set_target(&mut self, target: Target, value: F) {
        if let Some(old) = self.target_values.insert(target, value) {
            assert_eq!(
                value, old,
                "Target {:?} was set twice with different values: {} != {}",
                target, old, value
            );
        } else {
            self.order.push(target);
        }
    }
}
impl<F: Field> Witness<F> for PartialWitness<F> {
    fn try_get_target(&self, target: Target) -> Option<F> { self.target_values.get(&target).copied() }
}
