prop='C13'
needs='two transactions in progress with the same call tape but different participants'
breaks='completing one transaction forgets the progress of the other'
edits=[('node/src/block_proposer/transactions.rs', '            let tx = tx_entry.remove();\n', '            let tx = tx_entry.remove();\n            self.ongoing_tx.retain(|k, _| k.call_tape != key.call_tape);\n')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use plonky2::field::types::Field;
use simkit::guarded;
struct Tx { cast: Vec<u8>, call: u64, events: Vec<Vec<Ev>> }
fn call(c: u64) -> Word { [c, 1, 2, 3].map(F::from_canonical_u64) }
fn deliver(acc: &mut TransactionAccumulator, x: &Tx, m: usize) -> bool {
    let evs = canonical(&x.events[m]);
    let p = program(x.cast[m]).prove(vm_root(&evs), call(x.call), cast_root(&x.cast));
    let cast: Vec<_> = x.cast.iter().map(|p| pid(*p)).collect();
    acc.ingest_program(m, &program(x.cast[m]).circuit.verifier_only, &p, &cast, &real_events(&evs), call(x.call)).expect("an honest proof is taken").1
}
fn main() {
    let a = Tx { cast: vec![1, 2], call: 9, events: vec![vec![], vec![]] };
    let b = Tx { cast: vec![3, 4], call: 9, events: vec![vec![], vec![]] };
    let mut acc = TransactionAccumulator::new(tx_aux());
    assert!(!deliver(&mut acc, &a, 0));
    assert!(!deliver(&mut acc, &b, 1));
    assert!(deliver(&mut acc, &b, 0));
    assert!(deliver(&mut acc, &a, 1), "both participants' proofs arrived");
}
'''
