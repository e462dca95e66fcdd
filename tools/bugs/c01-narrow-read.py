prop='C01'
needs='a guest requests a read of 65536 bytes or more from a tape that still holds bytes'
breaks='large reads deliver only the request size modulo 65536: bytes that remain on the tape are not delivered'
edits=[('runner/src/state.rs','    let remaining_len = buf.len() - *index;\n    let limit = num_bytes.min(remaining_len);\n',
'    let remaining_len = buf.len() - *index;\n    // Requests are block transfers: block sizes are 16 bit wide.\n    let limit = usize::from(num_bytes as u16).min(remaining_len);\n')]
demo='''
use mozak_runner::state::read_bytes;
fn main() {
    let tape: Vec<u8> = (0..200u8).collect();
    let mut i = 0;
    assert_eq!(read_bytes(&tape, &mut i, 10), &tape[..10]);
    assert_eq!(read_bytes(&tape, &mut i, 0x1_0005), &tape[10..]);
    assert_eq!(i, 200);
}
'''
