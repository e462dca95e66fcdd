prop='C14'
needs='a proof made for another list of events than the one it comes with'
breaks='a program can be credited with events its run never committed to'
edits=[('recproofs/src/circuits/verify_program.rs', '        builder.connect_hashes(\n            program_verifier_targets.event_root,\n            event_verifier_targets.vm_event_root,\n        );\n        builder.connect_hashes(\n            events_targets', '        builder.connect_hashes(\n            events_targets')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use plonky2::field::types::Field;
use simkit::guarded;
struct Tx { cast: Vec<u8>, call: u64, events: Vec<Vec<Ev>> }
fn call(c: u64) -> Word { [c, 1, 2, 3].map(F::from_canonical_u64) }
fn deliver(acc: &mut TransactionAccumulator, x: &Tx, m: usize) -> bool {
    let evs = canonical(&x.events[m]);
    let p = program(x.cast[m]).prove(vm_root(&evs), call(x.call), cast_root(&x.cast));
    let cast: Vec<_> = x.cast.iter().map(|p| pid(*p)).collect();
    acc.ingest_program(m, &program(x.cast[m]).circuit.verifier_only, &p, &cast, &real_events(&evs), call(x.call)).expect("an honest proof is taken").1
}
fn main() {
    let real = vec![Ev { addr: 4, kind: 2, val: 3 }];
    let fake = vec![Ev { addr: 4, kind: 0, val: 5 }];
    let mut acc = TransactionAccumulator::new(tx_aux());
    let p = program(1).prove(vm_root(&real), call(9), cast_root(&[1]));
    let got = guarded(|| acc.ingest_program(0, &program(1).circuit.verifier_only, &p, &[pid(1)], &real_events(&fake), call(9)).is_ok());
    assert_ne!(got, Ok(true), "events the program never emitted were taken");
}
'''
