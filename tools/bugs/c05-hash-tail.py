prop='C05'
needs='a hash call whose 32-byte output ends in read-only memory but starts in writable memory'
breaks='the second half of a hash output is written without the read-only check'
edits=[('runner/src/poseidon2.rs','''                .fold(self, |updated_self, (i, byte)| {
                    updated_self''','''                .fold(self, |mut updated_self, (i, byte)| {
                    if i >= 16 {
                        updated_self
                            .memory
                            .data
                            .insert(output_ptr.wrapping_add(i), byte);
                        return updated_self;
                    }
                    updated_self''')]
demo='''
use mozak_runner::code::execute_code_with_ro_memory;
use mozak_runner::decode::ECALL;
use mozak_runner::state::RawTapes;
fn main() {
    let run = |out: u32| std::panic::catch_unwind(|| {
        let (_, r) = execute_code_with_ro_memory([ECALL], &[(0x2000, 9)], &[], &[(10, 3), (11, 0x1000), (12, 8), (13, out)], RawTapes::default());
        r.last_state.load_u8(0x2000)
    });
    assert_eq!(run(0x3000).unwrap(), 9);
    assert!(run(0x2000).is_err());
    assert!(run(0x2000 - 20).is_err());
}
'''
