prop='C09'
needs='the same pair of programs in a call within a call (A calls B calls A calls B)'
breaks='the result of the inner call is recorded for the outer one and the other way round'
edits=[('sdk/src/native/calltape.rs', '        self.writer[inserted_idx].return_ =\n            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();\n        self.identity_stack.borrow_mut().rm_identity();\n', '        let return_ = rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();\n        self.identity_stack.borrow_mut().rm_identity();\n        let caller = self.get_self_identity();\n        if let Some(open) = self.writer.iter_mut().find(|msg| {\n            msg.caller == caller && msg.callee == recipient_program && msg.return_.is_empty()\n        }) {\n            open.return_ = return_;\n        }\n'), ('sdk/src/native/calltape.rs', '        // Remember where in the "writer" are we pushing this.\n        // This is needed since during the time we spend resolving this\n        // `CrossProgramCall`, other elements would be added onto "writer"\n        let inserted_idx = self.writer.len();\n\n', '')]
deps=['sdk']
demo='''use mozak_sdk::common::types::*;
use mozak_sdk::{call_send, event_emit};
fn p(b: u8) -> ProgramIdentifier { ProgramIdentifier([b; 32].into()) }
fn ev(a: u8) -> Event { Event { object: StateObject { address: StateAddress::from([a; 8]), constraint_owner: p(1), data: vec![1] }, type_: EventType::Read } }
fn take() -> SystemTape { mozak_sdk::common::system::sim_take_system_tape() }
fn main() {
    call_send::<u8, u8>(p(1), 0, |_| {
        call_send::<u8, u8>(p(2), 1, |_| {
            call_send::<u8, u8>(p(1), 2, |_| { call_send::<u8, u8>(p(2), 3, |_| 33); 22 });
            11
        })
    });
    let r: Vec<u8> = take().call_tape.writer.iter().map(|m| m.return_.0[0]).collect();
    assert_eq!(r, [11, 11, 22, 33]);
}
'''
