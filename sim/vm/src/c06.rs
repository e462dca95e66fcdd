//! C06: torn, truncated and corrupted images meet the loader.
use std::collections::BTreeMap;

use mozak_runner::decode::decode_instruction;
use mozak_runner::elf::Program;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PSeg {
    kind: u32,
    flags: u32,
    addr: u32,
    data: Vec<u8>,
    bss: u32,
    /// Bytes of padding before the contents in the file.
    pad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    Truncate(u32),
    Flip(u32, u8),
    /// A lost write: this many bytes read back as zero.
    Lost(u32, u32),
    Append(Vec<u8>),
    /// (segment, word of its header, value)
    Header(u8, u8, u32),
    /// (offset in the ELF header, value)
    Ehdr(u8, u16),
    /// (offset, value)
    Ehdr32(u8, u32),
    /// Two blocks of the file change places.
    Swap(u32, u32, u32),
}
#[derive(Serialize, Deserialize)]
pub struct C06Case {
    entry: u32,
    segs: Vec<PSeg>,
    muts: Vec<Mutation>,
    vanilla: bool,
}

fn image(c: &C06Case) -> Vec<u8> {
    let mut f = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    f.extend(2u16.to_le_bytes());
    f.extend(243u16.to_le_bytes());
    for x in [1, c.entry & !3, 52, 0, 0] { f.extend(u32::to_le_bytes(x)); }
    for x in [52u16, 32, c.segs.len() as u16, 0, 0, 0] { f.extend(x.to_le_bytes()); }
    let mut off = 52 + 32 * c.segs.len() as u32;
    for s in &c.segs {
        off += u32::from(s.pad);
        for x in [s.kind, off, s.addr, s.addr, s.data.len() as u32, s.data.len() as u32 + s.bss, s.flags, 4] { f.extend(x.to_le_bytes()); }
        off += s.data.len() as u32;
    }
    for s in &c.segs {
        f.extend(std::iter::repeat(0xa5).take(usize::from(s.pad)));
        f.extend(&s.data);
    }
    f
}

fn mutate(f: &mut Vec<u8>, m: &Mutation, ctx: &mut Ctx) {
    let put = |f: &mut Vec<u8>, at: usize, b: &[u8]| for (i, x) in b.iter().enumerate() { if let Some(y) = f.get_mut(at + i) { *y = *x; } };
    match m {
        Mutation::Truncate(n) => { let n = *n as usize % (f.len() + 1); f.truncate(n); ctx.fault("image truncated") }
        Mutation::Flip(at, bit) => if !f.is_empty() { let at = *at as usize % f.len(); f[at] ^= 1 << (bit & 7); ctx.fault("bit flipped") },
        Mutation::Lost(at, n) => if !f.is_empty() { let at = *at as usize % f.len(); let e = (at + *n as usize).min(f.len()); f[at..e].fill(0); ctx.fault("block lost") },
        Mutation::Append(v) => { f.extend(v); ctx.fault("junk appended") }
        Mutation::Header(s, w, v) => { put(f, 52 + 32 * usize::from(*s) + 4 * usize::from(w % 8), &v.to_le_bytes()); ctx.fault("segment header corrupted") }
        Mutation::Ehdr(at, v) => { put(f, 4 + usize::from(at % 48), &v.to_le_bytes()); ctx.fault("file header corrupted") }
        Mutation::Ehdr32(at, v) => { put(f, 16 + usize::from(at % 36), &v.to_le_bytes()); ctx.fault("file header corrupted") }
        Mutation::Swap(a, b, n) => if f.len() > 1 {
            let (a, b) = (*a as usize % f.len(), *b as usize % f.len());
            let n = (*n as usize).min(f.len() - a.max(b)).min(a.abs_diff(b));
            for i in 0..n { f.swap(a + i, b + i); }
            ctx.fault("blocks exchanged");
        },
    }
}

#[derive(Debug, Default)]
struct Described {
    entry: u32,
    ro: BTreeMap<u32, u8>,
    rw: BTreeMap<u32, u8>,
    code: BTreeMap<u32, u8>,
    /// The bytes do not settle what is to be loaded.
    open: bool,
    /// An error is also a fair answer.
    err_ok: bool,
}
enum Verdict {
    Refuse(&'static str),
    Load(Described),
    TooBig,
}

/// What the bytes describe, from the ELF32 specification.
fn describe(f: &[u8]) -> Verdict {
    let h = |at: usize| f.get(at..at + 2).map(|b| u16::from_le_bytes([b[0], b[1]]));
    let w = |at: usize| f.get(at..at + 4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
    use Verdict::Refuse as R;
    if f.len() < 52 { return R("file header incomplete"); }
    if f[..4] != *b"\x7fELF" { return R("no ELF magic"); }
    if f[4] != 1 { return R("not a 32-bit file"); }
    if f[5] != 1 { return R("not little-endian"); }
    let mut d = Described::default();
    if f[6] != 1 || w(20) != Some(1) { d.err_ok = true; }
    if h(16) != Some(2) { return R("not an executable"); }
    if h(18) != Some(243) { return R("not RISC-V"); }
    d.entry = w(24).unwrap();
    if d.entry % 4 != 0 { return R("entry point misaligned"); }
    let (phoff, shoff, ehsize, phentsize, phnum) = (w(28).unwrap(), w(32).unwrap(), h(40).unwrap(), h(42).unwrap(), h(44).unwrap());
    if ehsize != 52 || shoff != 0 || h(48) != Some(0) { d.err_ok = true; }
    if phnum == 0 || phoff == 0 { d.err_ok = true; d.open = phnum != 0; return Verdict::Load(d); }
    if phentsize != 32 { return R("program header entries of another size"); }
    if phnum == 0xffff { return R("extended program header count without section header"); }
    if phnum > 256 { d.err_ok = true; }
    if u64::from(phoff) + 32 * u64::from(phnum) > f.len() as u64 { return R("program header table outside the file"); }
    let mut total = 0u64;
    let mut refuse = None;
    for i in 0..usize::from(phnum) {
        let at = phoff as usize + 32 * i;
        let [kind, off, addr, _, filesz, memsz, flags] = [0, 4, 8, 12, 16, 20, 24].map(|k| w(at + k).unwrap());
        if kind != 1 {
            // Not loaded, but a loader may reasonably check it.
            if u64::from(off) + u64::from(filesz) > f.len() as u64 || u64::from(addr) + u64::from(memsz) > 1 << 32 { d.err_ok = true; }
            if memsz > 1 << 18 || filesz > 1 << 18 { total += 1 << 20; }
            continue;
        }
        total += u64::from(memsz.max(filesz));
        if filesz > memsz { d.open = true; d.err_ok = true; }
        if flags & 4 == 0 || flags & !7 != 0 { d.open = true; d.err_ok = true; }
        let used = flags & 5 != 0 || flags & 6 == 6;
        if u64::from(off) + u64::from(filesz) > f.len() as u64 {
            if filesz > 0 && used && memsz > 0 { refuse = Some("segment contents outside the file"); } else { d.err_ok = true; }
            if filesz > 0 { d.open = true; }
        }
        if u64::from(addr) + u64::from(memsz) > 1 << 32 {
            if used && memsz > 0 { refuse = Some("segment outside the address space"); } else { d.err_ok = true; d.open = true; }
        }
        if d.open || refuse.is_some() || total > 1 << 18 { continue; }
        for k in 0..memsz {
            let a = addr + k;
            let b = if k < filesz { f[(off + k) as usize] } else { 0 };
            let mut into = |m: &mut BTreeMap<u32, u8>| if m.insert(a, b).is_some_and(|o| o != b) { d.open = true; d.err_ok = true; };
            if flags & 2 == 0 { into(&mut d.ro); } else { into(&mut d.rw); }
            if flags & 1 != 0 { into(&mut d.code); }
        }
    }
    if total > 1 << 18 { return Verdict::TooBig; }
    if let Some(r) = refuse { return R(r); }
    Verdict::Load(d)
}

pub struct C06;
impl Prop for C06 {
    type Case = C06Case;
    fn info(&self) -> Info {
        Info {
            id: "C06",
            rule: "seeded ELF32 images (several segments of all kinds and flags, adjacent, unaligned, zero-filled, up to the last byte of memory), loaded clean or after disk faults: truncation, lost blocks, bit flips, exchanged blocks, corrupted headers; non-trivial: the image describes bytes to load, or is refused because of an injected fault",
            level: "exploration",
            quick_runs: 40_000,
            thorough_runs: 3_000_000,
            components: &[
                ("runner: elf loader, code, decode", "real code"),
                ("ELF header parsing crate", "stub (small stand-in for elf 0.7)"),
                ("disk", "simulated (faults applied to the image bytes)"),
            ],
            assumptions: &[
                "images describing more than 256 KiB of memory are not loaded",
                "what a file describes is judged by the ELF32 specification; overlapping segments with different bytes, contents longer than the segment and segments that are not readable are left open",
            ],
            unit: "images loaded",
        }
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> C06Case {
        let n = rng.range(1, 5);
        let mut at = *rng.pick(&[0u32, 0x1000, 0x10_0000, 0x8000_0000]) + rng.below(5) as u32;
        let mut segs = vec![];
        for _ in 0..n {
            let len = if rng.chance(15) { 0 } else { rng.range(1, 60) } as usize;
            let kind = if rng.chance(80) { 1 } else { *rng.pick(&[0u32, 2, 4, 6, 0x7000_0003, 0x6474_e551, 0x6474_e552]) };
            let bss = if rng.chance(50) { 0 } else { rng.below(50) as u32 };
            let flags = *rng.pick(&[4u32, 4, 5, 5, 5, 6, 6, 6, 7]);
            let addr = match rng.below(12) {
                0 => 0u32.wrapping_sub(len as u32 + bss),
                1 => rng.u32() & 0x7fff_ffff,
                _ if kind != 1 && rng.chance(60) => 0,
                _ => at,
            };
            let mut data = rng.bytes(len);
            if flags & 1 == 1 { for b in data.chunks_mut(4) { if rng.chance(60) { for (x, y) in b.iter_mut().zip(0x00b5_0533u32.to_le_bytes()) { *x = y; } } } }
            segs.push(PSeg { kind, flags, addr, data, bss, pad: if rng.chance(30) { rng.below(9) as u8 } else { 0 } });
            at = at.wrapping_add(len as u32 + bss + if rng.chance(50) { 0 } else { rng.below(64) as u32 });
        }
        let size = image(&C06Case { entry: 0, segs: segs.clone(), muts: vec![], vanilla: false }).len() as u64;
        let m = |rng: &mut Rng| match rng.below(10) {
            0 => Mutation::Truncate(if rng.chance(50) { rng.below(size) as u32 } else { (size - rng.below(20.min(size))) as u32 }),
            1 | 2 => { let m = if rng.chance(60) { 52 + 32 * n } else { size }; Mutation::Flip(rng.below(size.min(m)) as u32, rng.below(8) as u8) },
            3 => Mutation::Lost(rng.below(size) as u32, rng.range(1, 64) as u32),
            4 => { let k = rng.range(1, 20) as usize; Mutation::Append(rng.bytes(k)) }
            5 | 6 => {
                let w = rng.below(7) as u8;
                let v = match w {
                    0 => rng.below(8) as u32,
                    1 => if rng.chance(70) { rng.below(size + 40) as u32 } else { rng.word() },
                    2 | 3 => if rng.chance(50) { 0u32.wrapping_sub(rng.below(120) as u32) } else { rng.word() },
                    4 | 5 => if rng.chance(80) { rng.below(120) as u32 } else { rng.word() },
                    _ => rng.below(9) as u32,
                };
                Mutation::Header(rng.below(n) as u8, w, v)
            }
            7 => Mutation::Ehdr(rng.below(48) as u8, if rng.chance(70) { rng.below(300) as u16 } else { rng.u32() as u16 }),
            8 => Mutation::Ehdr32(*rng.pick(&[4, 8, 12, 16, 20]), if rng.chance(60) { rng.below(size + 8) as u32 } else { rng.word() }),
            _ => Mutation::Swap(rng.below(size) as u32, rng.below(size) as u32, rng.range(1, 40) as u32),
        };
        let k = match rng.below(10) { 0..=2 => 0, 3..=7 => 1, _ => rng.range(2, 4) };
        let muts = (0..k).map(|_| m(rng)).collect();
        C06Case { entry: if rng.chance(80) { at & !3 } else { rng.u32() & !3 }, segs, muts, vanilla: rng.chance(30) }
    }
    fn run(&self, c: &C06Case, ctx: &mut Ctx) -> Outcome {
        let mut f = image(c);
        for m in &c.muts { mutate(&mut f, m, ctx); }
        let verdict = describe(&f);
        for b in f.chunks(64) { ctx.log(|| format!("{b:02x?}")); }
        ctx.step(1);
        if let Verdict::TooBig = verdict { ctx.probe("describes too much memory, not loaded"); return Ok(()); }
        let got = guarded(|| if c.vanilla { Program::vanilla_load_elf(&f) } else { Program::mozak_load_program(&f) });
        let got = match got {
            Err(e) => violate!("crash", "loading crashed: {e}"),
            Ok(g) => g,
        };
        match (&verdict, got) {
            (Verdict::TooBig, _) => Ok(()),
            (Verdict::Refuse(why), Ok(_)) => violate!("accepted", "the image must be refused ({why}) but it loads"),
            (Verdict::Refuse(why), Err(_)) => { ctx.probe(&format!("refused: {why}")); ctx.nontrivial = true; Ok(()) }
            (Verdict::Load(d), Err(e)) => {
                check!(d.err_ok || d.open, "refused", "a well-formed image is refused: {e}");
                ctx.probe("refused: oddity");
                Ok(())
            }
            (Verdict::Load(d), Ok(p)) => {
                if d.open { ctx.probe("loaded: contents open"); return Ok(()); }
                ctx.probe(if c.muts.is_empty() { "loaded: clean" } else { "loaded: as the damaged image describes" });
                ctx.nontrivial = !d.ro.is_empty() || !d.rw.is_empty();
                check!(p.entry_point == d.entry, "entry", "entry point {:#x}, image says {:#x}", p.entry_point, d.entry);
                for (what, real, want) in [("read-only", &p.ro_memory, &d.ro), ("writable", &p.rw_memory, &d.rw)] {
                    for (a, b) in want {
                        check!(real.get(a) == Some(b), "contents", "{what} byte {a:#x}: loaded {:x?}, image says {b:#x}", real.get(a));
                    }
                    let extra = real.keys().filter(|a| !want.contains_key(a)).min();
                    if let Some(a) = extra { violate!("contents", "{what} byte {a:#x} is loaded but not in the image"); }
                }
                let mut words: BTreeMap<u32, [u8; 4]> = BTreeMap::new();
                for (a, b) in &d.code { words.entry(a & !3).or_default()[(a & 3) as usize] = *b; }
                for (a, w) in &words {
                    let want = decode_instruction(*a, u32::from_le_bytes(*w));
                    let got = p.ro_code.get_instruction(*a);
                    check!(got == Some(&want), "code", "instruction at {a:#x}: loaded {got:?}, image says {want:?}");
                }
                check!(p.ro_code.len() == words.len(), "code", "{} instructions loaded, image has {}", p.ro_code.len(), words.len());
                Ok(())
            }
        }
    }
}
