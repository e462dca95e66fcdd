//! As much of a proof as the lookups read.
use plonky2::field::extension::Extendable;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::config::GenericConfig;

pub struct StarkProof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub openings: StarkOpeningSet<F, D>,
    pub _c: core::marker::PhantomData<C>,
}
pub struct StarkOpeningSet<F: RichField + Extendable<D>, const D: usize> {
    pub ctl_zs: Vec<F::Extension>,
    pub ctl_zs_next: Vec<F::Extension>,
}
pub struct StarkProofTarget<const D: usize> {
    pub openings: StarkOpeningSetTarget<D>,
}
pub struct StarkOpeningSetTarget<const D: usize> {
    pub ctl_zs: Vec<ExtensionTarget<D>>,
    pub ctl_zs_next: Vec<ExtensionTarget<D>>,
}
