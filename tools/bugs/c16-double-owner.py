prop='C16'
needs='two updates of one object in a block that agree on its data but not on the rest'
breaks='the conflicting second update is silently dropped'
edits=[('node/src/block_proposer/state.rs', 'assert_eq!(object, new_object, "double update");', 'assert_eq!(object.data, new_object.data, "double update");')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::state::{Operation, State};
use mozak_node::block_proposer::Address;
use simkit::guarded;
fn main() {
    let o = Obj { owner: 3, data: 4, updated: 5, credits: 6 };
    let mut s = State::new(state_aux(3), 3);
    s.apply_operation(Address(2), Operation::Upsert(o.real()));
    let again = guarded(|| s.apply_operation(Address(2), Operation::Upsert(Obj { owner: 2, ..o }.real())));
    assert!(again.is_err(), "conflicting updates were accepted");
}
'''
