//! The reference machine: RV32IM over raw words, byte memory and seven tapes.
//! Written from the instruction set manual; shares no code with the runner.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::Poseidon2Permutation;

use crate::asm::{d32, Seg, Tapes};

#[derive(Clone, Debug)]
pub struct Model {
    pub pc: u32,
    pub regs: [u32; 32],
    pub mem: Rc<BTreeMap<u32, u8>>,
    pub ro: Rc<BTreeSet<u32>>,
    pub code: Rc<BTreeMap<u32, u32>>,
    pub tapes: Rc<Tapes>,
    pub used: [usize; 4],
    pub clk: u64,
    pub halted: bool,
}

/// What one step did, beyond the next state.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Did {
    pub dst: Option<u32>,
    pub mem: Option<(u32, u32)>,
    pub addrs: Vec<u32>,
    pub read: Option<(u32, u32, Vec<u8>)>,
    pub hash: Option<Hash>,
    pub halt: bool,
    pub word: u32,
    /// The step is a system call (its destination value means nothing).
    pub sys: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Hash {
    pub input: u32,
    pub output: u32,
    pub len: u32,
    pub perms: Vec<(Vec<u64>, Vec<u64>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    NoInstruction,
    Unknown,
    GuestPanic(Option<String>),
    ReadOnly(u32),
    BadHash,
}

pub fn permute(s: &[u64; 12]) -> [u64; 12] {
    let mut p = Poseidon2Permutation::<F>::new(s.iter().map(|x| F::from_canonical_u64(*x)));
    p.permute();
    let v: Vec<u64> = p.as_ref().iter().map(|x| x.to_canonical_u64()).collect();
    v.try_into().unwrap()
}

/// Sponge over one byte per element, rate 8.
pub fn sponge(input: &[u8]) -> ([u8; 32], Vec<(Vec<u64>, Vec<u64>)>) {
    let mut s = [0u64; 12];
    let mut perms = vec![];
    for c in input.chunks(8) {
        for (i, b) in c.iter().enumerate() { s[i] = u64::from(*b); }
        let before = s.to_vec();
        s = permute(&s);
        perms.push((before, s.to_vec()));
    }
    let mut out = [0; 32];
    for i in 0..4 { out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
    (out, perms)
}

impl Model {
    pub fn load(entry: u32, segs: &[Seg], tapes: &Tapes) -> Self {
        let (mut rw, mut ro, mut x) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        for s in segs {
            let all = s.data.iter().copied().chain(std::iter::repeat(0).take(s.bss as usize));
            for (i, b) in all.enumerate() {
                let a = s.addr.wrapping_add(i as u32);
                if s.flags & 6 == 6 { rw.insert(a, b); }
                if s.flags & 6 == 4 { ro.insert(a, b); }
                if s.flags & 1 == 1 { x.insert(a, b); }
            }
        }
        let code = x.keys().map(|a| a & !3).collect::<BTreeSet<_>>().into_iter()
            .map(|a| (a, u32::from_le_bytes([0, 1, 2, 3].map(|i| x.get(&a.wrapping_add(i)).copied().unwrap_or(0))))).collect();
        let keys = ro.keys().copied().collect();
        rw.extend(ro);
        Self { pc: entry, regs: [0; 32], mem: Rc::new(rw), ro: Rc::new(keys), code: Rc::new(code), tapes: Rc::new(tapes.clone()), used: [0; 4], clk: 2, halted: false }
    }
    pub fn byte(&self, a: u32) -> u8 { self.mem.get(&a).copied().unwrap_or(0) }
    fn put(&mut self, a: u32, b: u8) -> Result<(), Stop> {
        if self.ro.contains(&a) { return Err(Stop::ReadOnly(a)); }
        Rc::make_mut(&mut self.mem).insert(a, b);
        Ok(())
    }
    fn set(&mut self, r: usize, v: u32) { if r != 0 { self.regs[r] = v; } }

    fn tape(&mut self, n: u32, len: u32) -> Vec<u8> {
        let t = self.tapes.clone();
        let whole: [u8; 32];
        let (data, slot): (&[u8], Option<usize>) = match n {
            2 => (&t.private, Some(0)),
            4 => (&t.public, Some(1)),
            5 => (&t.call, Some(2)),
            6 => (&t.event, Some(3)),
            7 => { whole = d32(&t.events_commitment); (&whole, None) }
            8 => { whole = d32(&t.cast_commitment); (&whole, None) }
            _ => { whole = d32(&t.self_id); (&whole, None) }
        };
        let at = slot.map_or(0, |s| self.used[s]);
        let n = (data.len() - at).min(len as usize);
        if let Some(s) = slot { self.used[s] += n; }
        data[at..at + n].to_vec()
    }

    pub fn step(&self) -> Result<(Model, Did), Stop> {
        let w = *self.code.get(&self.pc).ok_or(Stop::NoInstruction)?;
        let mut m = self.clone();
        let mut d = Did { word: w, ..Did::default() };
        m.clk += 1;
        let bits = |hi: u32, lo: u32| (w >> lo) & (u32::MAX >> (31 - (hi - lo)));
        let (rd, rs1, rs2) = (bits(11, 7) as usize, bits(19, 15) as usize, bits(24, 20) as usize);
        let (f3, f7) = (bits(14, 12), bits(31, 25));
        let (a, b) = (self.regs[rs1], self.regs[rs2]);
        let iimm = (w as i32 >> 20) as u32;
        let next = self.pc.wrapping_add(4);
        m.pc = next;
        let alu = |f3: u32, alt: bool, a: u32, b: u32| match f3 {
            0 if alt => a.wrapping_sub(b),
            0 => a.wrapping_add(b),
            1 => a << (b & 31),
            2 => u32::from((a as i32) < (b as i32)),
            3 => u32::from(a < b),
            4 => a ^ b,
            5 if alt => ((a as i32) >> (b & 31)) as u32,
            5 => a >> (b & 31),
            6 => a | b,
            _ => a & b,
        };
        match bits(6, 0) {
            0x33 => {
                let v = match (f7, f3) {
                    (0, _) => alu(f3, false, a, b),
                    (0x20, 0 | 5) => alu(f3, true, a, b),
                    (1, 0) => a.wrapping_mul(b),
                    (1, 1) => ((i64::from(a as i32) * i64::from(b as i32)) as u64 >> 32) as u32,
                    (1, 2) => ((i64::from(a as i32) as i128 * i128::from(b)) as u128 >> 32) as u32,
                    (1, 3) => ((u64::from(a) * u64::from(b)) >> 32) as u32,
                    (1, 4) => if b == 0 { u32::MAX } else { (a as i32).wrapping_div(b as i32) as u32 },
                    (1, 5) => if b == 0 { u32::MAX } else { a / b },
                    (1, 6) => if b == 0 { a } else { (a as i32).wrapping_rem(b as i32) as u32 },
                    (1, 7) => if b == 0 { a } else { a % b },
                    _ => return Err(Stop::Unknown),
                };
                m.set(rd, v);
                d.dst = Some(v);
            }
            0x13 => {
                let v = match f3 {
                    1 if f7 == 0 => a << rs2,
                    5 if f7 == 0 => a >> rs2,
                    5 if f7 == 0x20 => ((a as i32) >> rs2) as u32,
                    1 | 5 => return Err(Stop::Unknown),
                    _ => alu(f3, false, a, iimm),
                };
                m.set(rd, v);
                d.dst = Some(v);
            }
            0x03 => {
                let at = a.wrapping_add(iimm);
                let n = match f3 { 0 | 4 => 1, 1 | 5 => 2, 2 => 4, _ => return Err(Stop::Unknown) };
                let mut raw = 0u32;
                for i in (0..n).rev() { raw = raw << 8 | u32::from(self.byte(at.wrapping_add(i))); }
                let v = match f3 { 0 => raw as u8 as i8 as i32 as u32, 1 => raw as u16 as i16 as i32 as u32, _ => raw };
                m.set(rd, v);
                d.dst = Some(v);
                d.mem = Some((at, raw));
                d.addrs = (0..n).map(|i| at.wrapping_add(i)).collect();
            }
            0x23 => {
                let at = a.wrapping_add(((w as i32 >> 25) << 5) as u32 | bits(11, 7));
                let n = match f3 { 0 => 1, 1 => 2, 2 => 4, _ => return Err(Stop::Unknown) };
                let raw = if n == 4 { b } else { b & ((1 << (8 * n)) - 1) };
                for i in 0..n { m.put(at.wrapping_add(i), (raw >> (8 * i)) as u8)?; }
                d.dst = Some(raw);
                d.mem = Some((at, raw));
                d.addrs = (0..n).map(|i| at.wrapping_add(i)).collect();
            }
            0x63 => {
                let off = ((w as i32 >> 31) << 12) as u32 | bits(7, 7) << 11 | bits(30, 25) << 5 | bits(11, 8) << 1;
                let t = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => (a as i32) < (b as i32),
                    5 => (a as i32) >= (b as i32),
                    6 => a < b,
                    7 => a >= b,
                    _ => return Err(Stop::Unknown),
                };
                if t { m.pc = self.pc.wrapping_add(off); }
            }
            0x6f => {
                let off = ((w as i32 >> 31) << 20) as u32 | bits(19, 12) << 12 | bits(20, 20) << 11 | bits(30, 21) << 1;
                m.set(rd, next);
                m.pc = self.pc.wrapping_add(off);
                d.dst = Some(next);
            }
            0x67 if f3 == 0 => {
                m.set(rd, next);
                m.pc = a.wrapping_add(iimm) & !1;
                d.dst = Some(next);
            }
            0x37 => { m.set(rd, w & 0xffff_f000); d.dst = Some(w & 0xffff_f000); }
            0x17 => { let v = self.pc.wrapping_add(w & 0xffff_f000); m.set(rd, v); d.dst = Some(v); }
            0x0f => {}
            0x73 => match (f3, bits(31, 20)) {
                // `unimp`: csrrw to a read-only counter, illegal by the manual.
                _ if w == 0xc000_1073 => return Err(Stop::Unknown),
                (0, 1 | 0x302) | (1 | 2 | 5, _) => {}
                (0, 0) => self.ecall(&mut m, &mut d)?,
                _ => return Err(Stop::Unknown),
            },
            _ => return Err(Stop::Unknown),
        }
        Ok((m, d))
    }

    fn ecall(&self, m: &mut Model, d: &mut Did) -> Result<(), Stop> {
        let [n, a1, a2, a3] = [10, 11, 12, 13].map(|i| self.regs[i]);
        d.sys = Some(n);
        match n {
            0 => { m.halted = true; m.pc = self.pc; d.halt = true; }
            1 => {
                let msg: Vec<u8> = (0..a2.min(1 << 16)).map(|i| self.byte(a1.wrapping_add(i))).collect();
                return Err(Stop::GuestPanic(String::from_utf8(msg).ok()));
            }
            2 | 4..=9 => {
                let bytes = m.tape(n, a2);
                for (i, b) in bytes.iter().enumerate() { m.put(a1.wrapping_add(i as u32), *b)?; }
                d.addrs = (0..bytes.len() as u32).map(|i| a1.wrapping_add(i)).collect();
                d.read = Some((n, a1, bytes));
            }
            3 => {
                if a2 == 0 || a2 % 8 != 0 { return Err(Stop::BadHash); }
                let input: Vec<u8> = (0..a2).map(|i| self.byte(a1.wrapping_add(i))).collect();
                let (out, perms) = sponge(&input);
                for (i, b) in out.iter().enumerate() { m.put(a3.wrapping_add(i as u32), *b)?; }
                d.addrs = (0..a2).map(|i| a1.wrapping_add(i)).chain((0..32).map(|i| a3.wrapping_add(i))).collect();
                d.hash = Some(Hash { input: a1, output: a3, len: a2, perms });
            }
            _ => {}
        }
        Ok(())
    }
}

/// The whole expected run: state before each step, what it did, and how it ended.
pub struct Run {
    pub states: Vec<Model>,
    pub did: Vec<Did>,
    /// `None`: halted, or the step limit was reached.
    pub stop: Option<Stop>,
}
impl Run {
    pub fn new(m: Model, limit: usize) -> Self {
        let mut r = Run { states: vec![m], did: vec![], stop: None };
        while r.did.len() < limit && !r.states.last().unwrap().halted {
            match r.states.last().unwrap().step() {
                Ok((n, d)) => { r.states.push(n); r.did.push(d); }
                Err(s) => { r.stop = Some(s); break; }
            }
        }
        r
    }
    pub fn halted(&self) -> bool { self.states.last().unwrap().halted }
}
