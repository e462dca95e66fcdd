prop='C14'
needs='a refused (here: duplicate) proof for a transaction that is already in progress'
breaks='the refused proof discards the honest proofs that had arrived'
edits=[('node/src/block_proposer/transactions.rs', '                self.aux.insert_program(\n                    &mut o.get_mut().nodes,', '                if let Err(e) = self.aux.insert_program(\n                    &mut o.get_mut().nodes,'), ('node/src/block_proposer/transactions.rs', '                    event_tree,\n                    proof,\n                )?;\n                o\n', '                    event_tree,\n                    proof,\n                ) {\n                    o.remove();\n                    return Err(e);\n                }\n                o\n')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use plonky2::field::types::Field;
use simkit::guarded;
struct Tx { cast: Vec<u8>, call: u64, events: Vec<Vec<Ev>> }
fn call(c: u64) -> Word { [c, 1, 2, 3].map(F::from_canonical_u64) }
fn deliver(acc: &mut TransactionAccumulator, x: &Tx, m: usize) -> bool {
    let evs = canonical(&x.events[m]);
    let p = program(x.cast[m]).prove(vm_root(&evs), call(x.call), cast_root(&x.cast));
    let cast: Vec<_> = x.cast.iter().map(|p| pid(*p)).collect();
    acc.ingest_program(m, &program(x.cast[m]).circuit.verifier_only, &p, &cast, &real_events(&evs), call(x.call)).expect("an honest proof is taken").1
}
fn main() {
    let x = Tx { cast: vec![1, 2], call: 9, events: vec![vec![], vec![]] };
    let mut acc = TransactionAccumulator::new(tx_aux());
    assert!(!deliver(&mut acc, &x, 0));
    let evs = canonical(&x.events[0]);
    let again = program(1).prove(vm_root(&evs), call(9), cast_root(&x.cast));
    let cast: Vec<_> = x.cast.iter().map(|p| pid(*p)).collect();
    assert!(acc.ingest_program(0, &program(1).circuit.verifier_only, &again, &cast, &real_events(&evs), call(9)).is_err());
    assert!(deliver(&mut acc, &x, 1), "the refused proof disturbed the transaction");
}
'''
