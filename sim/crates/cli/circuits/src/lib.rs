pub mod memoryinit { pub mod generation {
    pub fn generate_elf_memory_init_trace<F>(_: &mozak_runner::elf::Program) -> Vec<Vec<F>> { unimplemented!() }
} }
pub mod program { pub mod generation {
    pub fn generate_program_rom_trace<F>(_: &mozak_runner::elf::Program) -> Vec<Vec<F>> { unimplemented!() }
} }
pub mod stark { pub mod prover {
    use mozak_sdk::common::types::ProgramIdentifier;
    use plonky2::field::extension::Extendable;
    use plonky2::hash::hash_types::RichField;
    use plonky2::hash::merkle_tree::MerkleCap;
    use plonky2::plonk::config::GenericConfig;
    pub fn get_program_id<F, C, const D: usize>(_: F, _: &MerkleCap<F, C::Hasher>, _: &MerkleCap<F, C::Hasher>) -> ProgramIdentifier
    where F: RichField + Extendable<D>, C: GenericConfig<D, F = F> { unimplemented!() }
} }
