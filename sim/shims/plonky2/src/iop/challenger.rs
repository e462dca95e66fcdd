//! A transcript: every challenge depends on everything observed before.
use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;
use crate::plonk::config::{AlgebraicHasher, Hasher};

#[derive(Clone, Debug)]
pub struct Challenger<F: RichField, H: Hasher<F>> {
    seen: Vec<F>,
    _h: core::marker::PhantomData<H>,
}
impl<F: RichField, H: Hasher<F>> Default for Challenger<F, H> { fn default() -> Self { Self::new() } }
impl<F: RichField, H: Hasher<F>> Challenger<F, H> {
    pub fn new() -> Self { Self { seen: vec![], _h: core::marker::PhantomData } }
    pub fn observe_element(&mut self, x: F) { self.seen.push(x); }
    pub fn observe_elements(&mut self, x: &[F]) { self.seen.extend_from_slice(x); }
    pub fn get_challenge(&mut self) -> F {
        use crate::plonk::config::GenericHashOut;
        let h = H::hash_no_pad(&self.seen).to_vec();
        self.seen = h.clone();
        h[0]
    }
}
pub struct RecursiveChallenger<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> {
    _h: core::marker::PhantomData<(F, H)>,
}
impl<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> RecursiveChallenger<F, H, D> {
    pub fn get_challenge(&mut self, _b: &mut CircuitBuilder<F, D>) -> Target { unimplemented!("no recursive verifier here") }
}
