prop='C03'
needs='a hash call over more than eight blocks (64 bytes)'
breaks='the record marks the eighth permutation of a long hash as the one that produces the output, not the last'
edits=[('runner/src/poseidon2.rs','''    sponge_data
        .last_mut()
        .expect("Can't fail''','''    sponge_data
        .iter_mut()
        .take(8)
        .last()
        .expect("Can't fail''')]
demo='''
use mozak_runner::poseidon2::hash_n_to_m_no_pad;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use plonky2::hash::poseidon2::Poseidon2Permutation;
fn main() {
    for blocks in 1..15 {
        let v: Vec<F> = (0..8 * blocks).map(|i| F::from_canonical_u8(i as u8)).collect();
        let (_, s) = hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(&v);
        let on: Vec<usize> = (0..s.len()).filter(|i| s[*i].gen_output == F::ONE).collect();
        assert_eq!(on, vec![blocks - 1], "{blocks} blocks");
    }
}
'''
