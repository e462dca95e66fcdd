prop='C09'
needs='a program that emits the same event twice with no other event of its own in between'
breaks='the second of two equal events in a row is not recorded'
edits=[('sdk/src/native/eventtape.rs', '        let canonical_repr = CanonicalEvent::from_event(&event);\n        self.temporal_ordering.push((event, canonical_repr));', '        let canonical_repr = CanonicalEvent::from_event(&event);\n        if self.temporal_ordering.last().is_some_and(|last| last.1 == canonical_repr) {\n            return;\n        }\n        self.temporal_ordering.push((event, canonical_repr));')]
deps=['sdk']
demo='''use mozak_sdk::common::types::*;
use mozak_sdk::{call_send, event_emit};
fn p(b: u8) -> ProgramIdentifier { ProgramIdentifier([b; 32].into()) }
fn ev(a: u8) -> Event { Event { object: StateObject { address: StateAddress::from([a; 8]), constraint_owner: p(1), data: vec![1] }, type_: EventType::Read } }
fn take() -> SystemTape { mozak_sdk::common::system::sim_take_system_tape() }
fn main() {
    call_send::<u8, u8>(p(1), 1, |x| { event_emit(ev(3)); event_emit(ev(4)); event_emit(ev(4)); event_emit(ev(3)); x });
    assert_eq!(take().event_tape.writer[&p(1)].get_canonical_order_temporal_hints().len(), 4);
}
'''
