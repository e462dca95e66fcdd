prop='C06'
needs='an executable segment that does not start on a word boundary'
breaks='the instruction word that contains the first, unaligned bytes is not decoded'
edits=[('runner/src/code.rs','                .map(|addr| addr & !3)\n','                .copied()\n                .filter(|addr| addr % 4 == 0)\n')]
demo=open('/verif/tools/demo/elf.rs').read()+'''
fn main() {
    let f = image(0x100, &[(1, 5, 0x100, vec![0x13, 0, 0, 0, 0x73, 0, 0, 0], 0)]);
    let p = Program::mozak_load_program(&f).unwrap();
    let mut keys: Vec<u32> = p.ro_code.keys().copied().collect();
    keys.sort();
    assert_eq!(keys, vec![0x100, 0x104]);
    let f = image(0x200, &[(1, 5, 0x203, vec![0x13, 0, 0, 0, 0x73], 0)]);
    let p = Program::mozak_load_program(&f).unwrap();
    let mut keys: Vec<u32> = p.ro_code.keys().copied().collect();
    keys.sort();
    assert_eq!(keys, vec![0x200, 0x204]);
}
'''
