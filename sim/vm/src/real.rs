//! Driving the real runner and comparing it with the reference machine.
use std::collections::BTreeSet;

use im::HashMap;
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Instruction, Op};
use mozak_runner::state::{Aux, RawTapes, State, StorageDeviceOpcode};
use mozak_runner::vm::Row;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use simkit::{check, guarded, violate, Outcome, Violation};

use crate::asm::{d32, elf_image, Machine, Seg, Tapes};
use crate::model::{Did, Model, Stop};

pub type St = State<F>;

pub fn raw_tapes(t: &Tapes) -> RawTapes {
    RawTapes {
        private_tape: t.private.clone(),
        public_tape: t.public.clone(),
        call_tape: t.call.clone(),
        event_tape: t.event.clone(),
        events_commitment_tape: d32(&t.events_commitment),
        cast_list_commitment_tape: d32(&t.cast_commitment),
        self_prog_id_tape: d32(&t.self_id),
    }
}

fn bytes_of(segs: &[Seg], f: impl Fn(u32) -> bool) -> HashMap<u32, u8> {
    segs.iter()
        .filter(|s| f(s.flags))
        .flat_map(|s| s.data.iter().copied().chain(std::iter::repeat(0).take(s.bss as usize)).enumerate().map(|(i, b)| (s.addr.wrapping_add(i as u32), b)))
        .collect()
}

pub fn program(m: &Machine) -> Result<Program, Violation> {
    let segs = m.segments();
    let load = || match m.via {
        0 => Program::mozak_load_program(&elf_image(m.code_addr & !3, &segs)),
        1 => Program::vanilla_load_elf(&elf_image(m.code_addr & !3, &segs)),
        _ => Ok(Program {
            entry_point: m.code_addr & !3,
            ro_memory: Data(bytes_of(&segs, |f| f & 6 == 4)),
            rw_memory: Data(bytes_of(&segs, |f| f & 6 == 6)),
            ro_code: Code::from(&bytes_of(&segs, |f| f & 1 == 1)),
        }),
    };
    match guarded(load) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(Violation::new("load", format!("well-formed image refused: {e}"))),
        Err(e) => Err(Violation::new("load", format!("loading a well-formed image crashed: {e}"))),
    }
}

pub fn state_diff(real: &St, model: &Model) -> Option<String> { regs_diff(real, model).or_else(|| mem_diff(real, model)) }

/// Everything but memory.
pub fn regs_diff(real: &St, model: &Model) -> Option<String> {
    if real.pc != model.pc { return Some(format!("pc is {:#x}, should be {:#x}", real.pc, model.pc)); }
    for r in 0..32u8 {
        let (a, b) = (real.get_register_value(r), model.regs[usize::from(r)]);
        if a != b { return Some(format!("register x{r} is {a:#x}, should be {b:#x}")); }
    }
    if real.clk != model.clk { return Some(format!("clock is {}, should be {}", real.clk, model.clk)); }
    if real.has_halted() != model.halted { return Some(format!("halted is {}, should be {}", real.has_halted(), model.halted)); }
    None
}

pub fn mem_diff(real: &St, model: &Model) -> Option<String> {
    let mut bad: Option<(u32, u8, u8)> = None;
    for (a, b) in model.mem.iter() {
        let x = real.load_u8(*a);
        if x != *b && bad.map_or(true, |m| *a < m.0) { bad = Some((*a, x, *b)); }
    }
    for (a, b) in &real.memory.data {
        let x = model.byte(*a);
        if x != *b && bad.map_or(true, |m| *a < m.0) { bad = Some((*a, *b, x)); }
    }
    if let Some((a, x, y)) = bad { return Some(format!("memory byte {a:#x} is {x:#x}, should be {y:#x}")); }
    let ro: BTreeSet<u32> = real.memory.is_read_only.iter().copied().collect();
    if ro != *model.ro {
        let a = ro.symmetric_difference(&model.ro).next().unwrap();
        return Some(format!("address {a:#x} is {}read-only", if ro.contains(a) { "" } else { "not " }));
    }
    None
}

pub fn tape_of(op: StorageDeviceOpcode) -> u32 {
    match op {
        StorageDeviceOpcode::None => 0,
        StorageDeviceOpcode::StorePrivate => 2,
        StorageDeviceOpcode::StorePublic => 4,
        StorageDeviceOpcode::StoreCallTape => 5,
        StorageDeviceOpcode::StoreEventTape => 6,
        StorageDeviceOpcode::StoreEventsCommitmentTape => 7,
        StorageDeviceOpcode::StoreCastListCommitmentTape => 8,
        StorageDeviceOpcode::StoreSelfProgIdTape => 9,
    }
}

/// The record's account of a tape transfer.
pub fn transfer_diff(aux: &Aux<F>, did: &Did) -> Option<String> {
    let got = aux.storage_device_entry.as_ref().map(|e| (tape_of(e.op), e.addr, e.data.clone()));
    if got != did.read {
        return Some(format!("record says tape transfer (tape, address, bytes) {got:x?}, machine did {:x?}", did.read));
    }
    if did.read.is_some() && aux.mem_addresses_used != did.addrs {
        return Some(format!("record lists addresses {:x?}, transfer touched {:x?}", aux.mem_addresses_used, did.addrs));
    }
    None
}

pub fn aux_diff(aux: &Aux<F>, inst: &Instruction, before: &Model, after: &Model, did: &Did) -> Option<String> {
    let a = &inst.args;
    let op1 = before.regs[usize::from(a.rs1)];
    let raw = before.regs[usize::from(a.rs2)];
    let op2 = match inst.op {
        Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => raw,
        Op::SRL | Op::SLL | Op::SRA => 1u32 << (raw.wrapping_add(a.imm) & 31),
        _ => raw.wrapping_add(a.imm),
    };
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => { if $got != $want { return Some(format!("{}: record says {:x?}, machine did {:x?}", $what, $got, $want)); } };
    }
    same!("new pc", aux.new_pc, after.pc);
    same!("first operand", aux.op1, op1);
    same!("raw second operand", aux.op2_raw, raw);
    same!("second operand", aux.op2, op2);
    same!("halting", aux.will_halt, did.halt);
    if did.sys.is_none() {
        if let Some(d) = did.dst { same!("result", aux.dst_val, d); }
    }
    same!("memory access", aux.mem.map(|m| (m.addr, m.raw_value)), did.mem);
    same!("addresses touched", aux.mem_addresses_used, did.addrs);
    if let Some(x) = transfer_diff(aux, did) { return Some(x); }
    let got = aux.poseidon2.as_ref().map(|e| crate::model::Hash {
        input: e.addr,
        output: e.output_addr,
        len: e.len,
        perms: e.sponge_data.iter().map(|s| (s.preimage.iter().map(|x| x.to_canonical_u64()).collect(), s.output.iter().map(|x| x.to_canonical_u64()).collect())).collect(),
    });
    same!("hash permutations", got, did.hash);
    if let Some(e) = &aux.poseidon2 {
        let n = e.sponge_data.len();
        for (i, s) in e.sponge_data.iter().enumerate() {
            same!("output marker of a permutation", s.gen_output, F::from_bool(i + 1 == n));
        }
    }
    None
}

pub enum Stepped {
    Ok(Box<Aux<F>>, Instruction, Box<St>),
    Err(String),
    Panic(String),
}
pub fn step1(p: &Program, s: &St) -> Stepped {
    match guarded(|| s.clone().execute_instruction(p)) {
        Ok(Ok((a, i, n))) => Stepped::Ok(Box::new(a), i, Box::new(n)),
        Ok(Err(e)) => Stepped::Err(e.to_string()),
        Err(e) => Stepped::Panic(e),
    }
}

pub const MAX_STEPS: usize = 1500;

/// The record of a run to the halt, refused beforehand when the machine does not halt in time.
pub fn whole(p: &Program, s: St, max: usize) -> Result<mozak_runner::vm::ExecutionRecord<F>, String> {
    let mut t = s.clone();
    let mut n = 0;
    while !t.has_halted() {
        if n > max { return Err(format!("the machine is still running after {max} steps")); }
        t = t.execute_instruction(p).map_err(|e| e.to_string())?.2;
        n += 1;
    }
    mozak_runner::vm::step(p, s).map_err(|e| e.to_string())
}

/// The way a run may end that is not a halt.
pub fn check_stop(stop: &Stop, got: Stepped, k: usize) -> Outcome {
    match (stop, got) {
        (Stop::NoInstruction | Stop::Unknown, Stepped::Err(_)) => Ok(()),
        (Stop::ReadOnly(_) | Stop::BadHash, Stepped::Err(_) | Stepped::Panic(_)) => Ok(()),
        (Stop::GuestPanic(Some(m)), Stepped::Panic(e) | Stepped::Err(e)) if !e.contains(m.as_str()) =>
            violate!("stop", "step {k}: guest panicked with {m:?} but the machine reports {e:?}"),
        (Stop::GuestPanic(_), Stepped::Err(_) | Stepped::Panic(_)) => Ok(()),
        (Stop::ReadOnly(a), Stepped::Ok(..)) => violate!("read-only", "step {k} writes read-only byte {a:#x} and the run goes on"),
        (s, Stepped::Ok(..)) => violate!("stop", "step {k}: the run should stop ({s:?}) but goes on"),
        (s, Stepped::Panic(e)) => violate!("stop", "step {k}: expected an error ({s:?}), the machine crashed: {e}"),
    }
}

pub fn unwrap_step(got: Stepped, k: usize, did: &Did) -> Result<(Aux<F>, Instruction, St), Violation> {
    match got {
        Stepped::Ok(a, i, s) => Ok((*a, i, *s)),
        Stepped::Err(e) => Err(Violation::new("step", format!("step {k} (word {:#010x}, syscall {:?}) failed: {e}", did.word, did.sys))),
        Stepped::Panic(e) => Err(Violation::new("step", format!("step {k} (word {:#010x}, syscall {:?}) crashed: {e}", did.word, did.sys))),
    }
}

/// Everything in a row of a record that can be printed, for exact comparison.
pub fn row_text(r: &Row<F>) -> String {
    let s = &r.state;
    let mut mem: Vec<(u32, u8)> = s.memory.data.iter().map(|(a, b)| (*a, *b)).filter(|x| x.1 != 0).collect();
    mem.sort_unstable();
    let a = &r.aux;
    format!(
        "{} {} {:x?} {:x} {:x?} {:?} {:x} {:x} {:x?} {:x?} {} {:x} {:x} {:x} {:x?} {:x?}",
        s.clk, s.halted, s.registers, s.pc, mem, r.instruction, a.dst_val, a.new_pc, a.mem, a.mem_addresses_used, a.will_halt, a.op1, a.op2, a.op2_raw, a.poseidon2, a.storage_device_entry
    )
}

/// Compares all of memory only now and then: after accesses, every 16 steps and at the end.
pub fn ok_step(real: &St, model: &Model, did: &Did, last: bool, class: &str, what: &str) -> Outcome {
    let d = regs_diff(real, model).or_else(|| (last || !did.addrs.is_empty() || model.clk % 16 == 0).then(|| mem_diff(real, model)).flatten());
    check!(d.is_none(), class, "{what}: {}", d.unwrap_or_default());
    Ok(())
}

pub fn ok_state(real: &St, model: &Model, class: &str, what: &str) -> Outcome {
    match state_diff(real, model) {
        Some(d) => {
            check!(false, class, "{what}: {d}");
            Ok(())
        }
        None => Ok(()),
    }
}
