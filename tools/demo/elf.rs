use mozak_runner::elf::Program;
fn image(entry: u32, segs: &[(u32, u32, u32, Vec<u8>, u32)]) -> Vec<u8> {
    let mut f = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 243, 0];
    for x in [1, entry, 52, 0, 0] { f.extend(u32::to_le_bytes(x)); }
    for x in [52u16, 32, segs.len() as u16, 0, 0, 0] { f.extend(x.to_le_bytes()); }
    let mut off = 52 + 32 * segs.len() as u32;
    for (kind, flags, addr, data, bss) in segs {
        for x in [*kind, off, *addr, *addr, data.len() as u32, data.len() as u32 + bss, *flags, 4] { f.extend(x.to_le_bytes()); }
        off += data.len() as u32;
    }
    for s in segs { f.extend(&s.3); }
    f
}
