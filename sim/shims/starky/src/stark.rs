use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::packed::PackedField;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;

use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;

#[derive(Clone, Copy, Debug)]
pub struct LookupConfig {
    pub degree_bits: usize,
    pub num_zs: usize,
}

pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
    const COLUMNS: usize = Self::EvaluationFrameTarget::COLUMNS;
    const PUBLIC_INPUTS: usize = Self::EvaluationFrameTarget::PUBLIC_INPUTS;
    type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE>
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;
    fn eval_packed_generic<FE, P, const D2: usize>(&self, vars: &Self::EvaluationFrame<FE, P, D2>, yield_constr: &mut ConstraintConsumer<P>)
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    fn eval_packed_base<P: PackedField<Scalar = F>>(&self, vars: &Self::EvaluationFrame<F, P, 1>, yield_constr: &mut ConstraintConsumer<P>) {
        self.eval_packed_generic(vars, yield_constr);
    }
    fn eval_ext(&self, vars: &Self::EvaluationFrame<F::Extension, F::Extension, D>, yield_constr: &mut ConstraintConsumer<F::Extension>) {
        self.eval_packed_generic(vars, yield_constr);
    }
    fn eval_ext_circuit(&self, builder: &mut CircuitBuilder<F, D>, vars: &Self::EvaluationFrameTarget, yield_constr: &mut RecursiveConstraintConsumer<F, D>);
    fn constraint_degree(&self) -> usize;
    fn quotient_degree_factor(&self) -> usize { 1.max(self.constraint_degree() - 1) }
    fn num_quotient_polys(&self, config: &crate::config::StarkConfig) -> usize { self.quotient_degree_factor() * config.num_challenges }
    fn requires_ctls(&self) -> bool { false }
    fn uses_lookups(&self) -> bool { false }
}
