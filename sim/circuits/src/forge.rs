//! Executions that are not the machine's, told as records the generators take.
use mozak_runner::elf::Program;
use mozak_runner::instruction::{Instruction, Op};
use mozak_runner::state::{CommitmentTape, State, StorageDeviceOpcode};
use mozak_runner::vm::{ExecutionRecord, Row};
use mozak_circuits::sim::F;
use plonky2::field::types::{Field, PrimeField64};
use serde::{Deserialize, Serialize};
use simkit::Rng;

pub type St = State<F>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    /// The honest execution.
    None,
    /// Another result.
    Dst,
    /// Another next address.
    Pc,
    /// The first or second operand read as another value.
    Op1, Op2,
    /// The second operand used as another value than read.
    Used,
    /// Memory read as another value.
    Load,
    /// Another value stored, or another address accessed.
    Store, Addr,
    /// Another instruction executed.
    Inst,
    /// A register or byte changes by itself.
    Register, Memory,
    /// The run ends early, or goes on after the halt.
    Stop, On,
    /// A system call taken for another one.
    Call,
    /// A tape gives other bytes, writes elsewhere, gives more or less.
    TapeBytes, TapeAddr, TapeSize, TapeKind,
    /// A hash puts out other bytes, elsewhere, of other input.
    HashOut, HashAddr, HashIn, HashLen,
    /// A hash starts or goes on with another state, or goes on elsewhere.
    HashState, HashJump,
    /// One round of a permutation comes out as something else.
    HashRound,
    /// Time jumps.
    Clock,
    /// The run begins elsewhere or with other registers.
    Entry, Start,
}
use Kind::*;
pub const KINDS: [(Kind, u64); 30] = [
    (None, 0), (Dst, 14), (Pc, 8), (Op1, 5), (Op2, 5), (Used, 6), (Load, 4), (Store, 4), (Addr, 3), (Inst, 6), (Register, 2), (Memory, 2), (Stop, 1), (On, 1), (Call, 3),
    (TapeBytes, 2), (TapeAddr, 2), (TapeSize, 2), (TapeKind, 1), (HashOut, 2), (HashAddr, 1), (HashIn, 1), (HashLen, 1), (HashState, 2), (HashJump, 2), (HashRound, 4), (Clock, 1), (Entry, 1), (Start, 1), (None, 0),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forgery { pub kind: Kind, pub at: u32, pub a: u32, pub b: u32 }
impl Forgery {
    pub fn gen(r: &mut Rng) -> Self {
        let w: Vec<u64> = KINDS.iter().map(|x| x.1).collect();
        Forgery { kind: KINDS[r.weighted(&w)].0, at: r.u32(), a: r.u32(), b: r.word() }
    }
}

pub fn wrong(v: u32, a: u32, b: u32, near: &[u32]) -> u32 {
    let w = match a % 24 {
        0 => v ^ 1,
        1 => v.wrapping_add(1),
        2 => v.wrapping_sub(1),
        3 => v ^ 0x8000_0000,
        4 => !v,
        5 => v.wrapping_neg(),
        6 => 0,
        7 => 1,
        8 => u32::MAX,
        9 => v ^ 0x80,
        10 => v ^ 0x8000,
        11 => v ^ 0xffff_ff00,
        12 => v ^ 0xffff_0000,
        13 => v ^ 0x100,
        14 => v ^ (1 << (b % 32)),
        15 => v.wrapping_mul(2),
        16 => v / 2,
        17..=20 if !near.is_empty() => near[b as usize % near.len()],
        17 => v.wrapping_add(4),
        18 => v.wrapping_sub(4),
        19 => v.wrapping_add(1 << 8),
        _ => b,
    };
    if w == v { v ^ 1 } else { w }
}

fn step(p: &Program, s: &St) -> Option<(Row<F>, St)> {
    // Calls over gigabytes are no use here.
    if matches!(p.ro_code.0.get(&s.pc), Some(Ok(i)) if i.op == Op::ECALL) && matches!(s.registers[10], 1 | 3 | 10) && s.registers[12] > 2048 { return Option::None; }
    let (aux, instruction, n) = simkit::guarded(|| s.clone().execute_instruction(p)).ok()?.ok()?;
    Some((Row { state: s.clone(), aux, instruction }, n))
}
/// Whether the machine halts soon.
pub fn halts(p: &Program, s: &St, max: usize) -> bool {
    let mut s = s.clone();
    for _ in 0..max {
        if s.halted { return true; }
        match step(p, &s) { Some((_, n)) => s = n, Option::None => return false }
    }
    s.halted
}
fn poke(s: &mut St, a: u32, b: u8) { s.memory.data.insert(a, b); }
fn peek(s: &St, a: u32) -> u8 { s.memory.data.get(&a).copied().unwrap_or(0) }
fn size(op: Op) -> u32 {
    match op { Op::LB | Op::LBU | Op::SB => 1, Op::LH | Op::LHU | Op::SH => 2, Op::LW | Op::SW => 4, _ => 0 }
}
pub fn is_store(op: Op) -> bool { matches!(op, Op::SB | Op::SH | Op::SW) }
fn is_load(op: Op) -> bool { size(op) > 0 && !is_store(op) }
fn is_branch(op: Op) -> bool { matches!(op, Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU) }
fn extended(op: Op, raw: u32) -> u32 {
    match op { Op::LB => raw as u8 as i8 as u32, Op::LH => raw as u16 as i16 as u32, _ => raw }
}

/// Where in an honest run the forgery has something to forge.
fn fits(k: Kind, r: &Row<F>, i: usize, last: usize) -> bool {
    let (op, ecall) = (r.instruction.op, r.instruction.op == Op::ECALL);
    let tape = r.aux.storage_device_entry.is_some();
    match k {
        None | Entry | Start => i == 0,
        Dst => !ecall && !is_branch(op) && !is_store(op) && r.instruction.args.rd != 0,
        Pc => i < last,
        Op1 | Op2 => i > 0,
        Used => !ecall && !is_branch(op),
        Load => is_load(op),
        Store => is_store(op),
        Addr => size(op) > 0,
        Inst => true,
        Register | Clock => i < last,
        Memory => i < last,
        Stop => i < last,
        On => i == last,
        Call => ecall,
        TapeBytes => matches!(r.aux.storage_device_entry.as_ref().map(|e| e.op), Some(StorageDeviceOpcode::StoreEventsCommitmentTape | StorageDeviceOpcode::StoreCastListCommitmentTape | StorageDeviceOpcode::StoreSelfProgIdTape)),
        TapeAddr | TapeSize | TapeKind => tape,
        HashOut | HashAddr | HashIn | HashLen | HashState | HashJump | HashRound => r.aux.poseidon2.is_some(),
    }
}

/// From which block on a hash is forged, and how far away it reads.
pub fn jump(f: &Forgery, blocks: usize) -> Option<(usize, u32)> {
    let j = f.b.rotate_left(11) as usize % blocks;
    if f.kind == HashJump && j == 0 { return Option::None; }
    Some((j, match f.a % 4 { 0 => 8, 1 => 8u32.wrapping_neg(), 2 => 1, _ => f.b % 64 + 1 }))
}
/// The forgery, or one of the next kind that an honest run offers something for.
pub fn fitting(honest: &ExecutionRecord<F>, f: &Forgery) -> Forgery {
    let last = honest.executed.len() - 1;
    let at = KINDS.iter().position(|x| x.0 == f.kind).unwrap();
    let kind = (0..KINDS.len()).map(|i| KINDS[(at + i) % KINDS.len()]).find(|k| k.1 > 0 && honest.executed.iter().enumerate().any(|(i, r)| fits(k.0, r, i, last))).map_or(f.kind, |x| x.0);
    Forgery { kind, ..f.clone() }
}
/// The step a forgery is about.
pub fn spot(honest: &ExecutionRecord<F>, f: &Forgery) -> Option<usize> {
    let last = honest.executed.len() - 1;
    let at: Vec<usize> = (0..=last).filter(|i| fits(f.kind, &honest.executed[*i], *i, last)).collect();
    (!at.is_empty()).then(|| at[f.at as usize % at.len()])
}
/// The forged record (none if the forgery finds nothing to forge or leads nowhere).
pub fn forged(p: &Program, s0: &St, honest: &ExecutionRecord<F>, f: &Forgery, round: Option<(usize, [F; 12])>, max: usize) -> Option<(ExecutionRecord<F>, usize)> {
    let rows = &honest.executed;
    let k = spot(honest, f)?;
    let mut row = rows[k].clone();
    let mut n: St = rows.get(k + 1).map_or(&honest.last_state, |r| &r.state).clone();
    let (s, args, op) = (row.state.clone(), row.instruction.args, row.instruction.op);
    let before = |r: u8| s.get_register_value(r);
    let older: Vec<u32> = rows[..k].iter().map(|x| x.aux.dst_val).collect();
    let code: Vec<u32> = { let mut v: Vec<u32> = p.ro_code.0.keys().copied().collect(); v.sort_unstable(); v };
    let near_code = |x: u32| -> u32 { let w = code[x as usize % code.len()]; w };
    let redo = |s2: &St, p: &Program, keep: &dyn Fn(&mut St)| -> Option<(Row<F>, St)> { let (r, mut n) = step(p, s2)?; keep(&mut n); Some((r, n)) };
    match f.kind {
        None => {}
        Dst => {
            let w = wrong(row.aux.dst_val, f.a, f.b, &[row.aux.op1, row.aux.op2, row.aux.op2_raw, row.aux.op1.wrapping_add(row.aux.op2), row.aux.op1.wrapping_sub(row.aux.op2)]);
            row.aux.dst_val = w;
            n.registers[usize::from(args.rd)] = w;
        }
        Pc => {
            let here = s.pc;
            let w = match f.a % 6 {
                0 => here.wrapping_add(4),
                1 => here,
                2 if is_branch(op) => if n.pc == here.wrapping_add(4) { args.imm } else { here.wrapping_add(4) },
                2 => n.pc.wrapping_add(4),
                3 => n.pc.wrapping_sub(4),
                4 => here.wrapping_add(8),
                _ => near_code(f.b),
            };
            if w == n.pc || !code.contains(&w) { return Option::None; }
            row.aux.new_pc = w;
            n.pc = w;
        }
        Op1 | Op2 | Call => {
            let r = if f.kind == Op2 { args.rs2 } else { args.rs1 };
            let v = before(r);
            let w = if f.kind == Call { f.b % 11 } else { wrong(v, f.a, f.b, &older) };
            if w == v || r == 0 { return Option::None; }
            let mut s2 = s.clone();
            s2.registers[usize::from(r)] = w;
            let (row2, n2) = redo(&s2, p, &|n| if args.rd != r { n.registers[usize::from(r)] = v; })?;
            (row, n) = (row2, n2);
            if f.kind == Call { row.aux.op1 = v; if f.a % 2 == 0 { row.aux.dst_val = honest.executed[k].aux.dst_val; } }
        }
        Used => {
            // The operation on another second operand, which is what the row claims in its helper columns.
            let v = row.aux.op2;
            let shift = matches!(op, Op::SLL | Op::SRL | Op::SRA);
            let w = if shift && f.a % 3 > 0 { 1 << (f.b % 32) }
                else if shift && f.a % 2 == 0 { let j = f.b % 32; (1u32 << j).wrapping_mul(1u32.wrapping_add(v.trailing_zeros()).wrapping_sub(j)) }
                else { wrong(v, f.a, f.b, &[row.aux.op2_raw, args.imm, row.aux.op1]) };
            if w == v { return Option::None; }
            let mut p2 = p.clone();
            let mut i2 = row.instruction;
            i2.args.rs2 = 0;
            i2.args.imm = w;
            // A shift is by what the table says the power of two is.
            if shift { i2.op = match op { Op::SLL => Op::MUL, Op::SRL => Op::DIVU, _ => Op::DIV }; }
            if op == Op::SRA && row.aux.op1 >> 31 == 1 && w.is_power_of_two() { i2.op = op; i2.args.imm = w.trailing_zeros(); }
            p2.ro_code.0.insert(s.pc, Ok(i2));
            let (row2, n2) = redo(&s, &p2, &|_| {})?;
            n = n2;
            let (raw, inst) = (row.aux.op2_raw, row.instruction);
            row = row2;
            row.instruction = inst;
            row.aux.op2_raw = raw;
            row.aux.op2 = w;
        }
        Load => {
            let (a, _) = row.aux.mem.as_ref().map(|m| (m.addr, m.raw_value))?;
            let x = a.wrapping_add(f.at.rotate_left(7) % size(op));
            let old = peek(&s, x);
            let w = if f.b % 3 == 0 { 0 } else { wrong(u32::from(old), f.a, f.b, &older) as u8 };
            if w == old { return Option::None; }
            let mut s2 = s.clone();
            poke(&mut s2, x, w);
            (row, n) = redo(&s2, p, &|n| poke(n, x, old))?;
            row.state = s;
        }
        Store => {
            let m = row.aux.mem.as_mut()?;
            let mask = u32::MAX >> (32 - 8 * size(op));
            let w = wrong(m.raw_value, f.a, f.b, &older) & mask;
            if w == m.raw_value { return Option::None; }
            m.raw_value = w;
            let a = m.addr;
            if f.b & 1 == 1 { row.aux.dst_val = w; }
            for i in 0..size(op) { poke(&mut n, a.wrapping_add(i), (w >> (8 * i)) as u8); }
        }
        Addr => {
            let m = row.aux.mem.as_mut()?;
            let (old, raw) = (m.addr, m.raw_value);
            let a = wrong(old, f.a, f.b, &[old.wrapping_add(4), old.wrapping_sub(4), args.imm, s.get_register_value(args.rs2)]);
            m.addr = a;
            row.aux.mem_addresses_used = (0..size(op)).map(|i| a.wrapping_add(i)).collect();
            if f.b & 2 == 2 { row.aux.op2 = a; }
            if is_store(op) {
                for i in 0..size(op) { let x = old.wrapping_add(i); poke(&mut n, x, peek(&s, x)); }
                for i in 0..size(op) { poke(&mut n, a.wrapping_add(i), (raw >> (8 * i)) as u8); }
            } else {
                let raw = (0..size(op)).rev().fold(0, |v, i| v << 8 | u32::from(peek(&s, a.wrapping_add(i))));
                m.raw_value = raw;
                row.aux.dst_val = extended(op, raw);
                if args.rd != 0 { n.registers[usize::from(args.rd)] = row.aux.dst_val; }
            }
        }
        Inst => {
            let mut i2 = row.instruction;
            match f.a / 24 % 6 {
                0 => i2.args.rd = (f.b % 32) as u8,
                1 => i2.args.rs1 = (f.b % 32) as u8,
                2 => i2.args.rs2 = (f.b % 32) as u8,
                3 => i2.args.imm = wrong(i2.args.imm, f.a, f.b, &older),
                4 => i2.op = SIBLINGS[f.b as usize % SIBLINGS.len()],
                _ => { let all: Vec<&Instruction> = code.iter().filter_map(|c| p.ro_code.0[c].as_ref().ok()).collect(); i2 = *all[f.b as usize % all.len()]; }
            }
            if i2 == row.instruction { return Option::None; }
            let mut p2 = p.clone();
            p2.ro_code.0.insert(s.pc, Ok(i2));
            (row, n) = redo(&s, &p2, &|_| {})?;
        }
        Register => {
            let r = (f.at.rotate_left(5) % 31 + 1) as usize;
            n.registers[r] = wrong(n.registers[r], f.a, f.b, &older);
        }
        Memory => {
            let used: Vec<u32> = rows[k..].iter().flat_map(|r| r.aux.mem_addresses_used.clone()).collect();
            if used.is_empty() { return Option::None; }
            let x = used[f.at.rotate_left(5) as usize % used.len()];
            let w = wrong(u32::from(peek(&n, x)), f.a, f.b, &older) as u8;
            poke(&mut n, x, w);
        }
        Stop => { row.aux.will_halt = true; n.halted = true; if f.b & 1 == 1 { n.pc = s.pc; } }
        On => {
            row.aux.will_halt = false;
            n.halted = false;
            n.pc = match f.a % 3 { 0 => s.pc.wrapping_add(4), 1 => near_code(f.b), _ => near_code(0) };
            if !code.contains(&n.pc) { n.pc = near_code(f.b); }
        }
        TapeBytes => {
            let e = row.aux.storage_device_entry.as_ref()?;
            if e.data.is_empty() { return Option::None; }
            let i = f.at.rotate_left(9) as usize % e.data.len();
            let mut s2 = s.clone();
            let t: &mut [u8; 32] = match e.op {
                StorageDeviceOpcode::StoreEventsCommitmentTape => &mut s2.events_commitment_tape.0,
                StorageDeviceOpcode::StoreCastListCommitmentTape => &mut s2.cast_list_commitment_tape.0,
                _ => &mut s2.self_prog_id_tape,
            };
            if f.a % 2 == 0 { t[i] = wrong(u32::from(t[i]), f.a, f.b, &[]) as u8; } else { let j = f.b as usize % e.data.len(); t.swap(i, j); }
            let tapes: (CommitmentTape, CommitmentTape, [u8; 32]) = (CommitmentTape(s.events_commitment_tape.0), CommitmentTape(s.cast_list_commitment_tape.0), s.self_prog_id_tape);
            (row, n) = redo(&s2, p, &|n| {
                n.events_commitment_tape = CommitmentTape(tapes.0 .0);
                n.cast_list_commitment_tape = CommitmentTape(tapes.1 .0);
                n.self_prog_id_tape = tapes.2;
            })?;
            row.state = s;
        }
        TapeAddr | TapeSize | HashAddr | HashIn | HashLen => {
            let r: u8 = match f.kind { TapeAddr | HashIn => 11, TapeSize | HashLen => 12, _ => 13 };
            let v = before(r);
            let w = match f.kind {
                HashLen => if f.a % 2 == 0 { v.wrapping_add(8) } else { v.wrapping_sub(8) },
                TapeSize => match f.a % 5 { 0 => v.wrapping_sub(1), 1 => v.wrapping_add(1), 2 => 0, 3 => 32, _ => f.b % 40 },
                _ => wrong(v, f.a, f.b, &[v.wrapping_add(32), v.wrapping_sub(32), v.wrapping_add(8)]),
            };
            if w > 4096 && matches!(f.kind, HashLen | TapeSize) { return Option::None; }
            let mut s2 = s.clone();
            s2.registers[usize::from(r)] = w;
            (row, n) = redo(&s2, p, &|n| n.registers[usize::from(r)] = v)?;
            row.state = s;
        }
        TapeKind => {
            let e = row.aux.storage_device_entry.as_mut()?;
            let ops = [StorageDeviceOpcode::StorePrivate, StorageDeviceOpcode::StorePublic, StorageDeviceOpcode::StoreCallTape, StorageDeviceOpcode::StoreEventTape,
                StorageDeviceOpcode::StoreEventsCommitmentTape, StorageDeviceOpcode::StoreCastListCommitmentTape, StorageDeviceOpcode::StoreSelfProgIdTape];
            let w = ops[f.b as usize % 7];
            if w == e.op { return Option::None; }
            e.op = w;
        }
        HashOut | HashRound => {
            let e = row.aux.poseidon2.as_mut()?;
            let out = e.output_addr;
            let j = if let Some((j, _)) = round { j } else if f.a % 3 == 0 { f.b.rotate_left(3) as usize % e.sponge_data.len() } else { e.sponge_data.len() - 1 };
            let i = f.b as usize % 12;
            let o = &mut e.sponge_data[j].output[i];
            *o = if f.a % 2 == 0 { *o + F::ONE } else { F::from_canonical_u32(f.b) };
            if let Some((_, to)) = round { e.sponge_data[j].output = to; }
            // The permutations after it go on from there.
            for x in j + 1..e.sponge_data.len() {
                let prev = e.sponge_data[x - 1].output;
                for c in 8..12 { e.sponge_data[x].preimage[c] = prev[c]; }
                let pre: [u64; 12] = e.sponge_data[x].preimage.map(|v| v.to_canonical_u64());
                e.sponge_data[x].output = crate::model::permute(&pre).map(F::from_canonical_u64);
            }
            let bytes: Vec<u8> = e.sponge_data.last()?.output[..4].iter().flat_map(|v| v.to_canonical_u64().to_le_bytes()).collect();
            for (i, b) in bytes.iter().enumerate() { poke(&mut n, out.wrapping_add(i as u32), *b); }
        }
        HashState | HashJump => {
            let e = row.aux.poseidon2.as_mut()?;
            let (j, by) = jump(f, e.sponge_data.len())?;
            for x in j..e.sponge_data.len() {
                if x > 0 { let prev = e.sponge_data[x - 1].output; for c in 8..12 { e.sponge_data[x].preimage[c] = prev[c]; } }
                if f.kind == HashState { if x == j { e.sponge_data[x].preimage[8 + f.b as usize % 4] += F::from_canonical_u32(f.a | 1); } }
                else { for c in 0..8 { e.sponge_data[x].preimage[c] = F::from_canonical_u8(peek(&s, e.addr.wrapping_add(8 * x as u32).wrapping_add(by).wrapping_add(c as u32))); } }
                let pre: [u64; 12] = e.sponge_data[x].preimage.map(|v| v.to_canonical_u64());
                e.sponge_data[x].output = crate::model::permute(&pre).map(F::from_canonical_u64);
            }
            let out = e.output_addr;
            let bytes: Vec<u8> = e.sponge_data.last()?.output[..4].iter().flat_map(|v| v.to_canonical_u64().to_le_bytes()).collect();
            for (i, b) in bytes.iter().enumerate() { poke(&mut n, out.wrapping_add(i as u32), *b); }
        }
        Clock => n.clk = match f.a % 4 { 0 => n.clk + 1, 1 => n.clk - 1, 2 => n.clk + u64::from(f.b), _ => 2 },
        Entry | Start => {
            let mut s = s0.clone();
            if f.kind == Entry { s.pc = near_code(f.b); } else { let r = honest.executed[f.at.rotate_left(5) as usize % honest.executed.len()].instruction.args.rs1; if r == 0 { return Option::None; } s.registers[usize::from(r)] = f.b; }
            if s.pc == s0.pc && f.kind == Entry { return Option::None; }
            let (r, m) = step(p, &s)?;
            (row, n) = (r, m);
        }
    }
    let mut executed: Vec<Row<F>> = rows[..k].to_vec();
    executed.push(row);
    while !n.halted {
        if executed.len() >= max { return Option::None; }
        let (r, m) = step(p, &n)?;
        executed.push(r);
        n = m;
    }
    Some((ExecutionRecord { executed, last_state: n }, k))
}

const SIBLINGS: [Op; 35] = [
    Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU, Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU,
    Op::JALR, Op::BEQ, Op::BNE, Op::BLT, Op::BLTU, Op::BGE, Op::BGEU, Op::SB, Op::SH, Op::SW, Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW, Op::ADD, Op::SUB,
];
