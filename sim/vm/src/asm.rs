//! Generated programs: items, assembler, images.
use serde::{Deserialize, Serialize};
use simkit::Rng;

pub const HALT: u32 = 0;
pub const PANIC: u32 = 1;
pub const PRIVATE: u32 = 2;
pub const POSEIDON2: u32 = 3;
pub const PUBLIC: u32 = 4;
pub const CALL: u32 = 5;
pub const EVENT: u32 = 6;
pub const EVENTS_COMMITMENT: u32 = 7;
pub const CAST_COMMITMENT: u32 = 8;
pub const SELF_ID: u32 = 9;
pub const TRACE_LOG: u32 = 10;
pub const TAPES: [u32; 7] = [PRIVATE, PUBLIC, CALL, EVENT, EVENTS_COMMITMENT, CAST_COMMITMENT, SELF_ID];

/// One piece of a generated program.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    /// (kind 0..18, rd, rs1, rs2)
    Op(u8, u8, u8, u8),
    /// (kind 0..9, rd, rs1, imm)
    OpImm(u8, u8, u8, u32),
    Lui(u8, u32),
    Auipc(u8, u32),
    /// (kind 0..5, rd, base, imm)
    Load(u8, u8, u8, u32),
    /// (kind 0..3, value, base, imm)
    Store(u8, u8, u8, u32),
    /// (kind 0..6, rs1, rs2, items to skip)
    Br(u8, u8, u8, u8),
    /// (rd, items to skip)
    Jal(u8, u8),
    /// (rd, temp, items to skip, added to the target)
    Jalr(u8, u8, u8, u8),
    /// Decrement the register and go back this many items while it is not zero.
    Back(u8, u8),
    Li(u8, u32),
    /// (number, a1, a2, a3)
    Sys(u32, u32, u32, u32),
    Raw(u32),
}
use Item::*;

fn r(op: u32, f3: u32, f7: u32, rd: u8, rs1: u8, rs2: u8) -> u32 {
    f7 << 25 | u32::from(rs2 & 31) << 20 | u32::from(rs1 & 31) << 15 | f3 << 12 | u32::from(rd & 31) << 7 | op
}
fn i(op: u32, f3: u32, rd: u8, rs1: u8, imm: u32) -> u32 {
    (imm & 0xfff) << 20 | u32::from(rs1 & 31) << 15 | f3 << 12 | u32::from(rd & 31) << 7 | op
}
fn s(f3: u32, rs1: u8, rs2: u8, imm: u32) -> u32 {
    ((imm >> 5) & 0x7f) << 25 | u32::from(rs2 & 31) << 20 | u32::from(rs1 & 31) << 15 | f3 << 12 | (imm & 0x1f) << 7 | 0x23
}
fn b(f3: u32, rs1: u8, rs2: u8, off: u32) -> u32 {
    ((off >> 12) & 1) << 31 | ((off >> 5) & 0x3f) << 25 | u32::from(rs2 & 31) << 20 | u32::from(rs1 & 31) << 15
        | f3 << 12 | ((off >> 1) & 0xf) << 8 | ((off >> 11) & 1) << 7 | 0x63
}
fn j(rd: u8, off: u32) -> u32 {
    ((off >> 20) & 1) << 31 | ((off >> 1) & 0x3ff) << 21 | ((off >> 11) & 1) << 20 | ((off >> 12) & 0xff) << 12
        | u32::from(rd & 31) << 7 | 0x6f
}
fn li(rd: u8, v: u32, out: &mut Vec<u32>) {
    let hi = v.wrapping_add(0x800) & 0xffff_f000;
    out.push(hi | u32::from(rd & 31) << 7 | 0x37);
    out.push(i(0x13, 0, rd, rd, v.wrapping_sub(hi)));
}

impl Item {
    pub fn words(&self) -> u32 {
        match self {
            Li(..) | Jalr(..) | Back(..) => 2,
            Sys(..) => 9,
            _ => 1,
        }
    }
}

/// (funct3, funct7) of register operations.
pub const OPS: [(u32, u32); 18] = [
    (0, 0), (0, 0x20), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (5, 0x20), (6, 0), (7, 0),
    (0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1),
];

pub fn assemble(items: &[Item]) -> Vec<u32> {
    let mut start = vec![0u32];
    for it in items { start.push(start.last().unwrap() + it.words()); }
    let at = |k: usize| start[k.min(items.len())];
    let mut out = vec![];
    for (n, it) in items.iter().enumerate() {
        let here = start[n];
        match *it {
            Op(k, rd, a, c) => { let (f3, f7) = OPS[usize::from(k) % 18]; out.push(r(0x33, f3, f7, rd, a, c)) }
            OpImm(k, rd, a, imm) => out.push(match k % 9 {
                0 => i(0x13, 0, rd, a, imm),
                1 => i(0x13, 2, rd, a, imm),
                2 => i(0x13, 3, rd, a, imm),
                3 => i(0x13, 4, rd, a, imm),
                4 => i(0x13, 6, rd, a, imm),
                5 => i(0x13, 7, rd, a, imm),
                6 => i(0x13, 1, rd, a, imm & 31),
                7 => i(0x13, 5, rd, a, imm & 31),
                _ => i(0x13, 5, rd, a, imm & 31 | 0x400),
            }),
            Lui(rd, v) => out.push(v & 0xffff_f000 | u32::from(rd & 31) << 7 | 0x37),
            Auipc(rd, v) => out.push(v & 0xffff_f000 | u32::from(rd & 31) << 7 | 0x17),
            Load(k, rd, a, imm) => out.push(i(0x03, [0, 1, 2, 4, 5][usize::from(k) % 5], rd, a, imm)),
            Store(k, v, a, imm) => out.push(s(u32::from(k) % 3, a, v, imm)),
            Br(k, a, c, skip) => {
                let off = 4 * (at(n + 1 + usize::from(skip)) - here);
                out.push(b([0, 1, 4, 5, 6, 7][usize::from(k) % 6], a, c, off));
            }
            Jal(rd, skip) => out.push(j(rd, 4 * (at(n + 1 + usize::from(skip)) - here))),
            Jalr(rd, t, skip, add) => {
                let t = if t & 31 == 0 { 5 } else { t };
                out.push(u32::from(t & 31) << 7 | 0x17);
                out.push(i(0x67, 0, rd, t, 4 * (at(n + 1 + usize::from(skip)) - here) + u32::from(add)));
            }
            Back(x, k) => {
                out.push(i(0x13, 0, x, x, 0xfff));
                let off = (4 * at(n.saturating_sub(usize::from(k)))).wrapping_sub(4 * (here + 1));
                out.push(b(1, x, 0, off));
            }
            Li(rd, v) => li(rd, v, &mut out),
            Sys(num, a1, a2, a3) => {
                li(10, num, &mut out);
                li(11, a1, &mut out);
                li(12, a2, &mut out);
                li(13, a3, &mut out);
                out.push(0x73);
            }
            Raw(w) => out.push(w),
        }
    }
    out
}

/// A loadable segment.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seg {
    pub addr: u32,
    /// R = 4, W = 2, X = 1
    pub flags: u32,
    pub data: Vec<u8>,
    pub bss: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Tapes {
    pub private: Vec<u8>,
    pub public: Vec<u8>,
    pub call: Vec<u8>,
    pub event: Vec<u8>,
    pub events_commitment: Vec<u8>,
    pub cast_commitment: Vec<u8>,
    pub self_id: Vec<u8>,
}
pub fn d32(v: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    for (a, b) in o.iter_mut().zip(v) { *a = *b; }
    o
}
impl Tapes {
    pub fn gen(rng: &mut Rng) -> Self {
        let mut t = |rng: &mut Rng| { let n = match rng.below(8) { 0 => 0, 1..=2 => rng.range(1, 10), _ => rng.range(20, 150) } as usize; rng.bytes(n) };
        Self {
            private: t(rng), public: t(rng), call: t(rng), event: t(rng),
            events_commitment: rng.bytes(32), cast_commitment: rng.bytes(32), self_id: rng.bytes(32),
        }
    }
}

/// A whole generated machine: program, data and tapes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Machine {
    pub code_addr: u32,
    pub code_flags: u32,
    pub items: Vec<Item>,
    pub halt: bool,
    pub data: Vec<Seg>,
    pub tapes: Tapes,
    /// 0: mozak loader, 1: vanilla loader, 2: built in memory
    pub via: u8,
}

impl Machine {
    pub fn words(&self) -> Vec<u32> {
        let mut w = assemble(&self.items);
        if self.halt {
            w.push(0x0000_0513);
            w.push(0x73);
        }
        w
    }
    pub fn segments(&self) -> Vec<Seg> {
        let mut v = vec![Seg {
            addr: self.code_addr & !3,
            flags: self.code_flags,
            data: self.words().iter().flat_map(|w| w.to_le_bytes()).collect(),
            bss: 0,
        }];
        v.extend(self.data.iter().cloned());
        v
    }
}

pub fn elf_image(entry: u32, segs: &[Seg]) -> Vec<u8> {
    let mut f = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let p16 = |f: &mut Vec<u8>, x: u16| f.extend(x.to_le_bytes());
    let p32 = |f: &mut Vec<u8>, x: u32| f.extend(x.to_le_bytes());
    p16(&mut f, 2);
    p16(&mut f, 243);
    p32(&mut f, 1);
    p32(&mut f, entry);
    p32(&mut f, 52);
    p32(&mut f, 0);
    p32(&mut f, 0);
    p16(&mut f, 52);
    p16(&mut f, 32);
    p16(&mut f, segs.len() as u16);
    p16(&mut f, 0);
    p16(&mut f, 0);
    p16(&mut f, 0);
    let mut off = 52 + 32 * segs.len() as u32;
    for s in segs {
        for x in [1, off, s.addr, s.addr, s.data.len() as u32, s.data.len() as u32 + s.bss, s.flags, 4] { p32(&mut f, x); }
        off += s.data.len() as u32;
    }
    for s in segs { f.extend(&s.data); }
    f
}

/// Where things are, for picking addresses worth touching.
#[derive(Clone, Debug)]
pub struct Map {
    pub rw: u32,
    pub rw_len: u32,
    pub ro: u32,
    pub ro_len: u32,
    pub code: u32,
}
impl Map {
    pub fn rw_addr(&self, rng: &mut Rng) -> u32 {
        match rng.below(8) {
            0..=4 => self.rw.wrapping_add(rng.below(u64::from(self.rw_len)) as u32),
            5 => self.rw.wrapping_add(self.rw_len).wrapping_add(rng.below(40) as u32),
            6 => 0x0070_0000 + rng.below(64) as u32,
            _ => self.rw,
        }
    }
    /// Addresses next to or inside read-only bytes.
    pub fn edge(&self, rng: &mut Rng) -> u32 {
        match rng.below(6) {
            0 => self.ro.wrapping_sub(rng.range(1, 8) as u32),
            1 => self.ro.wrapping_add(self.ro_len).wrapping_sub(rng.below(5) as u32),
            2 => self.ro.wrapping_add(rng.below(u64::from(self.ro_len)) as u32),
            3 => self.code.wrapping_sub(rng.below(5) as u32),
            4 => self.code.wrapping_add(rng.below(64) as u32),
            _ => self.ro,
        }
    }
    pub fn top(rng: &mut Rng) -> u32 { 0u32.wrapping_sub(rng.below(24) as u32) }
}

pub fn gen_layout(rng: &mut Rng, writable_code: bool) -> (Machine, Map) {
    let code_addr = *rng.pick(&[0x100, 0x1000, 0x0002_0000, 0x4000_0000, 0x8000_0000, 0xffff_0000]);
    let rw = 0x0020_0000 + rng.below(16) as u32;
    let rw_data = { let n = rng.range(1, 48) as usize; rng.bytes(n) };
    let bss = rng.small(64) as u32;
    let rw_len = rw_data.len() as u32 + bss;
    let ro_data: Vec<u8> = { let n = rng.range(1, 40) as usize; (0..n).map(|_| b'a' + rng.below(26) as u8).collect() };
    // Read-only bytes right after, right before or away from writable ones.
    let ro = match rng.below(3) { 0 => rw + rw_len, 1 => rw - ro_data.len() as u32, _ => 0x0030_0000 + rng.below(8) as u32 };
    let map = Map { rw, rw_len, ro, ro_len: ro_data.len() as u32, code: code_addr };
    let m = Machine {
        code_addr,
        code_flags: if writable_code { 7 } else { 5 },
        items: vec![],
        halt: true,
        data: vec![Seg { addr: rw, flags: 6, data: rw_data, bss }, Seg { addr: ro, flags: 4, data: ro_data, bss: 0 }],
        tapes: Tapes::gen(rng),
        via: rng.below(3) as u8,
    };
    (m, map)
}

pub fn gen_read(rng: &mut Rng, map: &Map, edge: u64) -> Item {
    let len = match rng.below(32) { 0..=2 => 0, 3..=6 => 1, 7..=22 => rng.range(1, 12), 23..=26 => 32, 27..=29 => rng.range(30, 200), _ => u64::from(rng.word()) } as u32;
    let addr = if rng.chance(edge) { map.edge(rng) } else if rng.chance(12) { Map::top(rng) } else { map.rw_addr(rng) };
    Sys(*rng.pick(&TAPES), addr, len, 0)
}

pub fn gen_items(rng: &mut Rng, map: &Map, n: usize, edge: u64) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let reg = |rng: &mut Rng| if rng.chance(70) { rng.below(8) as u8 + 5 } else { rng.below(32) as u8 };
    for _ in 0..rng.below(6) { v.push(Li(reg(rng), rng.word())); }
    while v.len() < n {
        let addr = |rng: &mut Rng| match rng.below(100) {
            x if x < edge => map.edge(rng),
            x if x < edge + 8 => Map::top(rng),
            x if x < edge + 12 => rng.word(),
            _ => map.rw_addr(rng),
        };
        match rng.below(20) {
            0..=3 => v.push(Op(rng.below(18) as u8, reg(rng), reg(rng), reg(rng))),
            4..=5 => v.push(OpImm(rng.below(9) as u8, reg(rng), reg(rng), rng.word())),
            6 => v.push(Li(reg(rng), rng.word())),
            7 => v.push(if rng.chance(50) { Lui(reg(rng), rng.u32()) } else { Auipc(reg(rng), rng.u32()) }),
            8..=9 => {
                // loads only read, so read-only addresses are as good as any
                let a = if rng.chance(30) { map.edge(rng) } else { addr(rng) };
                let off = (rng.below(9) as u32).wrapping_sub(4);
                let x = reg(rng);
                v.push(Li(x, a.wrapping_sub(off)));
                v.push(Load(rng.below(5) as u8, if rng.chance(20) { x } else { reg(rng) }, x, off));
            }
            10..=12 => {
                let a = addr(rng);
                let off = (rng.below(9) as u32).wrapping_sub(4);
                let x = reg(rng);
                v.push(Li(x, a.wrapping_sub(off)));
                v.push(Store(rng.below(3) as u8, if rng.chance(20) { x } else { reg(rng) }, x, off));
                if rng.chance(50) { v.push(Load(rng.below(5) as u8, reg(rng), x, off.wrapping_add(rng.below(5) as u32).wrapping_sub(2))); }
            }
            13..=14 => v.push(Br(rng.below(6) as u8, reg(rng), reg(rng), rng.below(4) as u8)),
            15 => v.push(match rng.below(10) {
                0..=3 => Jal(reg(rng), rng.below(3) as u8),
                4..=8 => Jalr(reg(rng), reg(rng), rng.below(3) as u8, u8::from(rng.chance(20))),
                _ => Raw(*rng.pick(&[0x0010_0073, 0x3020_0073, 0x0ff0_000f, 0x0000_100f, 0x3000_1073, 0xc000_2573])),
            }),
            16 => {
                let x = rng.below(3) as u8 + 28;
                v.push(Li(x, rng.range(1, 4) as u32));
                let body = rng.range(1, 3);
                for _ in 0..body { v.push(Op(rng.below(18) as u8, rng.below(27) as u8, reg(rng), reg(rng))); }
                v.push(Back(x, rng.range(1, body) as u8));
            }
            17..=18 => v.push(gen_read(rng, map, edge)),
            _ => match rng.below(12) {
                0..=5 => {
                    let len = 8 * if rng.chance(20) { rng.range(6, 64) } else { rng.range(1, 5) } as u32;
                    let input = if rng.chance(10) { Map::top(rng) } else if rng.chance(30) { map.edge(rng) } else { map.rw_addr(rng) };
                    let out = if rng.chance(25) { input.wrapping_add(rng.below(40) as u32).wrapping_sub(20) } else { addr(rng) };
                    v.push(Sys(POSEIDON2, input, len, out));
                }
                6..=7 => v.push(Sys(TRACE_LOG, map.ro, rng.below(u64::from(map.ro_len) + 1) as u32, 0)),
                8 => v.push(Sys(TRACE_LOG, 0u32.wrapping_sub(rng.below(9) as u32), rng.below(16) as u32, 0)),
                9 => v.push(Sys(11 + rng.below(20) as u32, rng.word(), rng.word(), rng.word())),
                10 if rng.chance(20) => v.push(Sys(PANIC, map.ro, rng.below(u64::from(map.ro_len) + 1) as u32, 0)),
                11 if rng.chance(15) => v.push(Raw(*rng.pick(&[0, 0xffff_ffff, 0x0000_202f, 0x4501, 0x0200_1013, 0x0000_3003, 0xc000_1073]))),
                _ => v.push(Sys(HALT | 100, 0, 0, 0)),
            },
        }
    }
    v
}
