prop='C04'
needs='two copies of a machine that both read the event tape, or one copy resumed from a snapshot taken before an event tape read'
breaks='the event tape cursor is shared between copies, so reading in one copy moves the cursor of the others'
edits=[('runner/src/state.rs','''#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StorageDeviceTape {''','''thread_local! {
    /// Fast path for sequential readers: where the last transfer from a tape ended.
    pub(crate) static LAST_END: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StorageDeviceTape {'''),
('runner/src/ecall.rs','''            StorageDeviceOpcode::StoreEventTape => read_bytes(
                &self.event_tape.data,
                &mut self.event_tape.read_index,
                num_bytes_requested as usize,
            ),''','''            StorageDeviceOpcode::StoreEventTape => {
                let key = self.event_tape.data.as_ptr() as usize;
                let (last, end) = crate::state::LAST_END.with(std::cell::Cell::get);
                let mut at = if last == key { end } else { self.event_tape.read_index };
                let data = read_bytes(&self.event_tape.data, &mut at, num_bytes_requested as usize);
                self.event_tape.read_index = at;
                crate::state::LAST_END.with(|l| l.set((key, at)));
                data
            }''')]
demo='''
use mozak_runner::code::Code;
use mozak_runner::decode::ECALL;
use mozak_runner::elf::Program;
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;
fn main() {
    let code = Code((0..8u32).map(|i| (4 * i, Ok(ECALL))).collect());
    let p = Program::create(&[], &[], code);
    let tapes = RawTapes { event_tape: (1..40).collect(), ..RawTapes::default() };
    let s0 = [(10, 6), (11, 0x1000), (12, 4)].iter().fold(State::<F>::new(p.clone(), tapes), |s, (r, v)| s.set_register_value(*r, *v));
    let s1 = s0.clone().execute_instruction(&p).unwrap().2;
    let s2 = s1.clone().execute_instruction(&p).unwrap().2;
    assert_eq!(s2.load_u8(0x1000), 5);
    let again = s1.execute_instruction(&p).unwrap().2;
    assert_eq!(again.load_u8(0x1000), 5);
    assert_eq!(s0.execute_instruction(&p).unwrap().2.load_u8(0x1000), 1);
}
'''
