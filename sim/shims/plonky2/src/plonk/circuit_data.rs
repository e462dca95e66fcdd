use core::marker::PhantomData;

use anyhow::{ensure, Result};
use serde::{Deserialize, Serialize};

use super::circuit_builder::{mac, Program};
use crate::field::extension::Extendable;
use crate::fri::reduction_strategies::FriReductionStrategy;
use crate::fri::FriConfig;
use crate::gates::gate::GateRef;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::target::Target;
use crate::iop::witness::PartialWitness;
use crate::plonk::config::{GenericConfig, GenericHashOut, Hasher};
use crate::plonk::proof::{Proof, ProofWithPublicInputs};

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CircuitConfig {
    pub num_wires: usize,
    pub num_routed_wires: usize,
    pub num_constants: usize,
    pub use_base_arithmetic_gate: bool,
    pub security_bits: usize,
    pub num_challenges: usize,
    pub zero_knowledge: bool,
    pub randomize_unused_wires: bool,
    pub max_quotient_degree_factor: usize,
    pub fri_config: FriConfig,
}
impl Default for CircuitConfig {
    fn default() -> Self { Self::standard_recursion_config() }
}
impl CircuitConfig {
    pub const fn num_advice_wires(&self) -> usize { self.num_wires - self.num_routed_wires }
    pub const fn standard_recursion_config() -> Self {
        Self {
            num_wires: 135,
            num_routed_wires: 80,
            num_constants: 2,
            use_base_arithmetic_gate: true,
            security_bits: 100,
            num_challenges: 2,
            zero_knowledge: false,
            randomize_unused_wires: false,
            max_quotient_degree_factor: 8,
            fri_config: FriConfig {
                rate_bits: 3,
                cap_height: 4,
                proof_of_work_bits: 16,
                reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5),
                num_query_rounds: 28,
            },
        }
    }
    pub fn standard_ecc_config() -> Self { Self { num_wires: 136, ..Self::standard_recursion_config() } }
    pub fn standard_recursion_zk_config() -> Self {
        Self { zero_knowledge: true, ..Self::standard_recursion_config() }
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CommonCircuitData<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    pub gates: Vec<GateRef<F, D>>,
    pub num_public_inputs: usize,
    pub degree_bits: usize,
}
impl<F: RichField + Extendable<D>, const D: usize> CommonCircuitData<F, D> {
    pub const fn degree_bits(&self) -> usize { self.degree_bits }
    pub const fn degree(&self) -> usize { 1 << self.degree_bits }
    pub(crate) fn fingerprint(&self) -> u64 {
        let mut h = super::circuit_builder::Fast::new();
        h.bytes(format!("{:?}|{:?}|{}|{}", self.config, self.gates, self.num_public_inputs, self.degree_bits).as_bytes());
        h.finish()[0]
    }
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> {
    pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>,
    pub circuit_digest: <C::Hasher as Hasher<C::F>>::Hash,
}

#[derive(Debug)]
pub struct ProverOnlyCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub public_inputs: Vec<Target>,
    pub circuit_digest: HashOut<F>,
    pub(crate) program: Program<F>,
    pub(crate) _c: PhantomData<C>,
}

#[derive(Debug)]
pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub prover_only: ProverOnlyCircuitData<F, C, D>,
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}

pub struct VerifierCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}

fn tag_for<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    v: &VerifierOnlyCircuitData<C, D>,
    common: &CommonCircuitData<F, D>,
    pis: &[F],
) -> HashOut<F> {
    mac(&v.circuit_digest.to_vec(), &v.constants_sigmas_cap.flatten(), pis, common.fingerprint())
}

fn check<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    v: &VerifierOnlyCircuitData<C, D>,
    common: &CommonCircuitData<F, D>,
    p: &ProofWithPublicInputs<F, C, D>,
) -> Result<()> {
    ensure!(
        p.public_inputs.len() == common.num_public_inputs,
        "Number of public inputs doesn't match circuit data."
    );
    ensure!(p.proof.tag == tag_for(v, common, &p.public_inputs), "Mismatch between evaluation and opening of quotient polynomial");
    Ok(())
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    /// Panics, as the real prover does, when the witness contradicts itself.
    pub fn prove(&self, inputs: PartialWitness<F>) -> Result<ProofWithPublicInputs<F, C, D>> {
        let public_inputs = self.prover_only.program.run(inputs, &self.prover_only.public_inputs);
        let tag = tag_for(&self.verifier_only, &self.common, &public_inputs);
        Ok(ProofWithPublicInputs { proof: Proof { tag, _c: PhantomData }, public_inputs })
    }
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> { check(&self.verifier_only, &self.common, &p) }
    pub fn verifier_data(&self) -> VerifierCircuitData<F, C, D> {
        VerifierCircuitData { verifier_only: self.verifier_only.clone(), common: self.common.clone() }
    }
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> VerifierCircuitData<F, C, D> {
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> { check(&self.verifier_only, &self.common, &p) }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct VerifierCircuitTarget {
    pub constants_sigmas_cap: MerkleCapTarget,
    pub circuit_digest: HashOutTarget,
}
