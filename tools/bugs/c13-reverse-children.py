prop='C13'
needs='three programs, the second with an event at a lower address than the first, the third below their common node'
breaks='the merged tree of two events remembers its children the wrong way round; the next merge into it contradicts the earlier proof and the transaction never completes'
edits=[('node/src/block_proposer/transactions.rs', '            left: Box::new(right),\n            right: Box::new(left),\n', '            left: Box::new(left),\n            right: Box::new(right),\n')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use plonky2::field::types::Field;
use simkit::guarded;
struct Tx { cast: Vec<u8>, call: u64, events: Vec<Vec<Ev>> }
fn call(c: u64) -> Word { [c, 1, 2, 3].map(F::from_canonical_u64) }
fn deliver(acc: &mut TransactionAccumulator, x: &Tx, m: usize) -> bool {
    let evs = canonical(&x.events[m]);
    let p = program(x.cast[m]).prove(vm_root(&evs), call(x.call), cast_root(&x.cast));
    let cast: Vec<_> = x.cast.iter().map(|p| pid(*p)).collect();
    acc.ingest_program(m, &program(x.cast[m]).circuit.verifier_only, &p, &cast, &real_events(&evs), call(x.call)).expect("an honest proof is taken").1
}
fn main() {
    let ev = |addr| vec![Ev { addr, kind: 2, val: 3 }];
    let x = Tx { cast: vec![1, 2, 3], call: 9, events: vec![ev(9), ev(1), ev(8)] };
    let mut acc = TransactionAccumulator::new(tx_aux());
    let done = guarded(|| (0..3).map(|m| deliver(&mut acc, &x, m)).last());
    assert_eq!(done, Ok(Some(true)), "the transaction does not complete");
    assert_eq!(acc.finalize().unwrap().events(), tx_forest(&x.cast, &x.events).root().unwrap());
}
'''
