prop='C16'
needs='a read of an object in one block and another block after it'
breaks='the address that was only read stays in the summary of the later blocks'
edits=[('node/src/block_proposer/state.rs', '            BeingRead { object } => (leaf.proof.old(), object),\n', '            BeingRead { object } => {\n                // Nothing changed\n                leaf.kind = Unused { object };\n                return FinalizeOutcome::NoOp;\n            }\n')]
deps=['node','recproofs','sdk','simkit']
src={'kit.rs':'/verif/sim/node/src/kit.rs'}
extra_deps='serde = { version = "1.0", features = ["derive"] }\n'
demo='''mod kit;
use kit::*;
use mozak_node::block_proposer::state::{Operation, State};
use mozak_node::block_proposer::Address;
use simkit::guarded;
fn main() {
    let o = Obj { owner: 3, data: 4, updated: 5, credits: 6 };
    let mut s = State::new(state_aux(3), 3);
    s.apply_operation(Address(2), Operation::Upsert(o.real()));
    s.finalize();
    s.apply_operation(Address(2), Operation::Read);
    s.finalize();
    assert!(!s.root_proof().summary_present(), "a block in which nothing happened covers an address");
}
'''
