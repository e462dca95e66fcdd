extern crate mozak_circuits_stub as mozak_circuits;
extern crate starky_stub as starky;
#[path = "/repo/cli/src/runner.rs"]
pub mod runner;
mod trace_utils {
    use plonky2::field::extension::Extendable;
    use plonky2::hash::hash_types::RichField;
    use plonky2::hash::merkle_tree::MerkleCap;
    use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
    pub(crate) fn get_trace_merkle_cap<F, C, const D: usize, Row: IntoIterator<Item = F>>(_: Vec<Row>, _: &starky::config::StarkConfig) -> MerkleCap<F, C::Hasher>
    where
        F: RichField + Extendable<D>,
        C: GenericConfig<D, F = F>,
        C::Hasher: AlgebraicHasher<F>, {
        unimplemented!()
    }
}
