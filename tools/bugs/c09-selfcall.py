prop='C09'
needs='a program that calls itself and then emits or calls again'
breaks='the identity of the running program is lost after a program called itself: later calls and events are credited to its caller'
edits=[('sdk/src/native/identity.rs', '    pub fn add_identity(&mut self, id: ProgramIdentifier) { self.0.push(id); }', '    pub fn add_identity(&mut self, id: ProgramIdentifier) {\n        // Nothing changes when a program stays in charge\n        if self.top_identity() != id {\n            self.0.push(id);\n        }\n    }')]
deps=['sdk']
demo='''use mozak_sdk::common::types::*;
use mozak_sdk::{call_send, event_emit};
fn p(b: u8) -> ProgramIdentifier { ProgramIdentifier([b; 32].into()) }
fn ev(a: u8) -> Event { Event { object: StateObject { address: StateAddress::from([a; 8]), constraint_owner: p(1), data: vec![1] }, type_: EventType::Read } }
fn take() -> SystemTape { mozak_sdk::common::system::sim_take_system_tape() }
fn main() {
    call_send::<u8, u8>(p(1), 1, |x| {
        call_send::<u8, u8>(p(1), 2, |y| y + 1);
        event_emit(ev(3));
        x
    });
    let t = take();
    assert_eq!(t.event_tape.writer.keys().collect::<Vec<_>>(), [&p(1)]);
}
'''
