prop='C12'
needs='a list of seven or more (participants, or events on one address)'
breaks='the proposer groups the list differently from the SDK, and their roots differ'
edits=[('node/src/block_proposer.rs', '            if pc != c {\n', '            if pc > 2 * c {\n')]
deps=['node', 'sdk']
demo='''use mozak_node::block_proposer::reduce_tree;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::Poseidon2Hash;
fn main() {
    for n in 1..12u64 {
        let v: Vec<Poseidon2Hash> = (0..n).map(|i| Poseidon2Hash::from([i, 1, 2, 3])).collect();
        let r = reduce_tree(v.clone(), |x| x, |x| x, Poseidon2Hash::two_to_one).unwrap();
        assert_eq!(merkleize(v.into_iter().enumerate().map(|(i, x)| (i as u64, x)).collect()), r, "{n} programs");
    }
}
'''
