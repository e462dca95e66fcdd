prop='C17'
needs="a transaction proof without any event, put together with matches and a state change of somebody else's events"
breaks='a state change no transaction asked for is added to the chain'
edits=[('recproofs/src/circuits/verify_block.rs', '        builder.connect_hashes(tx_targets.event_root, match_delta_targets.event_root);\n', '        // Nothing to compare when the transactions have no events\n        let event_root = select_hash(\n            &mut builder,\n            tx_targets.events_present,\n            tx_targets.event_root,\n            match_delta_targets.event_root,\n        );\n        builder.connect_hashes(event_root, match_delta_targets.event_root);\n'), ('recproofs/src/circuits/verify_block.rs', 'use super::{match_delta, state_update, verify_tx};\n', 'use super::{match_delta, state_update, verify_tx};\nuse crate::select_hash;\n')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::block::Blocks;
use mozak_node::block_proposer::matches::Matches;
use mozak_node::block_proposer::state::{Operation, State};
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use mozak_node::block_proposer::Address;
use plonky2::field::types::Field;
use simkit::guarded;
fn main() {
    let o = Obj { owner: 1, data: 4, updated: 0, credits: 6 };
    let evs = [Ev { addr: 2, kind: 0, val: 5 }];
    let call = [1, 1, 2, 3].map(F::from_canonical_u64);
    let mut acc = TransactionAccumulator::new(tx_aux());
    let p = program(1).prove(None, call, cast_root(&[1]));
    let (k, _) = acc.ingest_program(0, &program(1).circuit.verifier_only, &p, &[pid(1)], &[], call).unwrap();
    let n = Obj { data: 5, updated: 1, ..o };
    let mut m = Matches::new(match_aux());
    m.ingest_events(k, &pid(1), &real_events(&evs));
    m.ready_tx(k).unwrap();
    let m = m.finalize(1, |_| (o.real(), n.real()));
    let mut s = State::new(state_aux(3), 3);
    s.apply_operation(Address(2), Operation::Upsert(o.real()));
    s.finalize();
    let mut chain = Blocks::new(block_aux(3), s.root_proof().new());
    s.apply_operation(Address(2), Operation::Upsert(n.real()));
    let t = acc.finalize().unwrap();
    let got = guarded(|| chain.increment(&t, &m, s.root_proof()).is_ok());
    assert_ne!(got, Ok(true), "events nobody emitted changed the state");
}
'''
