prop='C05'
needs='a tape read that starts in writable memory and runs into read-only bytes'
breaks='only the first byte of the destination is checked, so the rest of a tape read overwrites read-only memory'
edits=[('runner/src/ecall.rs','''                .fold(self, |acc, (i, byte)| {
                    acc.store_u8(
                        buffer_start.wrapping_add(u32::try_from(i).expect("cannot fit i into u32")),
                        *byte,
                    )
                    .unwrap()
                })''','''                .fold(self, |mut acc, (i, byte)| {
                    let i = u32::try_from(i).expect("cannot fit i into u32");
                    if i == 0 {
                        return acc.store_u8(buffer_start, *byte).unwrap();
                    }
                    acc.memory.data.insert(buffer_start.wrapping_add(i), *byte);
                    acc
                })''')]
demo='''
use mozak_runner::code::execute_code_with_ro_memory;
use mozak_runner::decode::ECALL;
use mozak_runner::state::RawTapes;
fn main() {
    let run = |at: u32| std::panic::catch_unwind(|| {
        let tapes = RawTapes { private_tape: vec![1, 2, 3, 4], ..RawTapes::default() };
        let (_, r) = execute_code_with_ro_memory([ECALL], &[(0x2000, 9)], &[(0x1fff, 0)], &[(10, 2), (11, at), (12, 4)], tapes);
        r.last_state.load_u8(0x2000)
    });
    assert_eq!(run(0x1000).unwrap(), 9);
    assert!(run(0x2000).is_err());
    assert!(run(0x1ffe).is_err());
}
'''
