prop='C06'
needs='an image with a segment whose memory size exceeds its file size and with further file contents behind it'
breaks='the zero-filled tail of a segment is loaded from whatever follows in the file'
edits=[('runner/src/elf.rs','                    chain!(&input[offset..][..min_size], repeat(&0u8))','                    chain!(&input[offset..][..min_size.next_multiple_of(4).min(input.len() - offset)], repeat(&0u8))')]
demo=open('/verif/tools/demo/elf.rs').read()+'''
fn main() {
    // 5 bytes of file, 8 bytes of memory, followed by another segment's bytes
    let f = image(0x100, &[(1, 6, 0x2000, vec![1, 2, 3, 4, 5], 3), (1, 5, 0x100, vec![0x13, 0, 0, 0], 0)]);
    let p = Program::mozak_load_program(&f).unwrap();
    let got: Vec<u8> = (0..8).map(|i| p.rw_memory.get(&(0x2000 + i)).copied().unwrap()).collect();
    assert_eq!(got, vec![1, 2, 3, 4, 5, 0, 0, 0]);
}
'''
