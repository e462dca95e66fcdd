prop='C12'
needs='five or more events on one address and one on the address next to it'
breaks='the SDK starts joining neighbouring addresses before it is done with the events of one address: its root is not the one the block proposer computes'
edits=[('sdk/src/common/merkle.rs', 'next_height_incr = next_height_incr.min(height_diff);', 'next_height_incr = next_height_incr.min(height_diff.max(1));')]
deps=['node', 'sdk']
demo='''use mozak_node::block_proposer::{reduce_tree_by_address, Address, BranchAddress};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::Poseidon2Hash;
fn main() {
    let leaf = |i: u64| Poseidon2Hash::from([i, 0, 0, 0]);
    let v: Vec<(u64, Poseidon2Hash)> = [6, 6, 6, 6, 6, 7].iter().enumerate().map(|(i, a)| (*a, leaf(i as u64))).collect();
    let _ = Address(0);
    let t = v.iter().map(|(a, h)| (BranchAddress::base(*a), *h)).collect();
    let (_, r) = reduce_tree_by_address(t, |x| x.parent(1), |_, l, r| Poseidon2Hash::two_to_one(l, r)).unwrap();
    assert_eq!(merkleize(v), r, "the SDK's root and the proposer's differ");
}
'''
