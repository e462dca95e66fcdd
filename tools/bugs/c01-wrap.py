prop='C01'
needs='a tape read whose buffer starts near the top of the address space and is longer than the bytes left up to the top'
breaks='the record of the read names wrong addresses: bytes land wrapped round, but the record repeats the last address'
edits=[('runner/src/ecall.rs','            .map(|i| buffer_start.wrapping_add(i))\n            .collect();','            .map(|i| buffer_start.saturating_add(i))\n            .collect();')]
demo='''
use mozak_runner::code::execute_code_with_ro_memory;
use mozak_runner::decode::ECALL;
use mozak_runner::state::RawTapes;
fn main() {
    let tapes = RawTapes { private_tape: vec![1, 2, 3, 4], ..RawTapes::default() };
    let (_, r) = execute_code_with_ro_memory([ECALL], &[], &[], &[(10, 2), (11, 0xffff_fffe), (12, 4)], tapes);
    assert_eq!(r.last_state.load_u8(1), 4);
    assert_eq!(r.executed[0].aux.mem_addresses_used, vec![0xffff_fffe, 0xffff_ffff, 0, 1]);
}
'''
