prop='C15'
needs='a block in which an object gets its first owner (or loses its owner) without any event that gives it away'
breaks='a change of owner nobody asked for is accepted'
edits=[('recproofs/src/circuits/match_delta/core.rs', '        builder.connect(is_owner_change, give_owner_flag.target); // Mode based on flags\n', '')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::matches::Matches;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use mozak_node::block_proposer::OngoingTxKey;
use plonky2::field::types::Field;
use simkit::guarded;
fn key(n: u64) -> OngoingTxKey {
    let mut acc = TransactionAccumulator::new(tx_aux());
    let call = [n, 1, 2, 3].map(F::from_canonical_u64);
    let p = program(1).prove(None, call, cast_root(&[1]));
    acc.ingest_program(0, &program(1).circuit.verifier_only, &p, &[pid(1)], &[], call).unwrap().0
}
fn main() {
    let old = Obj { owner: 0, data: 4, updated: 5, credits: 6 };
    let new = Obj { owner: 3, ..old };
    let got = guarded(|| {
        let mut m = Matches::new(match_aux());
        m.ingest_events(key(0), &pid(1), &real_events(&[Ev { addr: 9, kind: 2, val: 4 }]));
        m.ready_tx(key(0)).unwrap();
        let _ = m.finalize(7, |_| (old.real(), new.real()));
    });
    assert!(got.is_err(), "an owner nobody asked for was accepted");
}
'''
