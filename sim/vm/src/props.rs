//! C01 to C05: simulators of the machine.
use mozak_runner::vm::Row;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, isolated, violate, Ctx, Info, Outcome, Prop, Rng, Violation};

use crate::asm::{self, gen_items, gen_layout, gen_read, Item, Machine};
use crate::model::{Model, Run, Stop};
use crate::real::{self, aux_diff, check_stop, ok_state, ok_step, row_text, step1, transfer_diff, unwrap_step, whole, MAX_STEPS, St};

const COMPONENTS: &[(&str, &str)] = &[
    ("runner: elf loader, code, decode, vm, state, ecall, poseidon2", "real code"),
    ("sdk::core constants and register names", "real code"),
    ("ELF header parsing crate", "stub (small stand-in for elf 0.7)"),
    ("Poseidon2 permutation", "stub (same shape and round structure, own constants)"),
    ("std hash map keys", "simulated (owned by the seed)"),
];
const ASSUME: &[&str] = &[
    "programs and tapes are generated, at most a few hundred steps each",
    "the Poseidon2 permutation is a stand-in shared by the runner and the reference machine",
    "overflow checks and debug assertions are on",
];

fn setup(m: &Machine) -> Result<(mozak_runner::elf::Program, St, Model), Violation> {
    let p = real::program(m)?;
    let s = St::new(p.clone(), real::raw_tapes(&m.tapes));
    let model = Model::load(m.code_addr & !3, &m.segments(), &m.tapes);
    Ok((p, s, model))
}

fn probes(run: &Run, ctx: &mut Ctx) {
    for (k, d) in run.did.iter().enumerate() {
        if let Some(n) = d.sys { ctx.probe(&format!("syscall {}", if n > 10 { 11 } else { n })); }
        if let Some((n, a, b)) = &d.read {
            if b.is_empty() { ctx.probe("tape read of nothing"); }
            if a.checked_add(b.len() as u32).is_none() { ctx.probe("tape read wraps round the address space"); }
            if run.states[k].regs[12] as usize > b.len() && *n < 7 { ctx.fault("tape ran out during a read"); }
        }
        if let Some((a, _)) = d.mem { if a > u32::MAX - 3 { ctx.probe("access near the top of memory"); } }
    }
    match &run.stop {
        Some(Stop::ReadOnly(_)) => ctx.probe("ends at a write to read-only memory"),
        Some(Stop::GuestPanic(_)) => ctx.probe("ends with a guest panic"),
        Some(Stop::NoInstruction) => ctx.probe("ends at an address without instruction"),
        Some(Stop::Unknown) => ctx.probe("ends at an unknown instruction"),
        Some(Stop::BadHash) => ctx.probe("ends at a malformed hash call"),
        None if run.halted() => ctx.probe("halts"),
        None => ctx.probe("step limit"),
    }
    ctx.step(run.did.len() as u64);
}

fn log_run(run: &Run, ctx: &mut Ctx) {
    for (k, d) in run.did.iter().enumerate() {
        let m = &run.states[k];
        ctx.log(|| format!("{} pc={:#x} word={:#010x} did={:?}", m.clk, m.pc, d.word, (d.dst, d.mem, &d.read, d.hash.as_ref().map(|h| (h.input, h.len, h.output)), d.sys)));
    }
    ctx.log(|| format!("end {:?} halted={}", run.stop, run.halted()));
}

// ------------------------------------------------------------------------ C01

pub struct C01;
#[derive(Serialize, Deserialize)]
pub struct C01Case {
    machine: Machine,
    /// Before these steps the machine is thrown away and resumed from an older snapshot.
    crashes: Vec<(u16, u16)>,
}
impl Prop for C01 {
    type Case = C01Case;
    fn info(&self) -> Info {
        Info {
            id: "C01",
            rule: "seeded programs of reads over the seven tapes mixed with stores and loads over the buffers; tapes of any length, truncated at any byte; crash and resume from older snapshots between reads; non-trivial: at least two reads delivered bytes",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 700_000,
            components: COMPONENTS,
            assumptions: ASSUME,
            unit: "executed instructions",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> C01Case {
        let (mut machine, map) = gen_layout(rng, false);
        let n = rng.range(2, if thorough { 24 } else { 12 });
        for _ in 0..n {
            let mut it = gen_read(rng, &map, 3);
            if let (Item::Sys(t, ..), true) = (&mut it, rng.chance(60)) {
                // stay on few tapes so that cursors matter
                *t = *rng.pick(&[asm::PRIVATE, asm::PUBLIC, asm::CALL, asm::EVENT]);
            }
            machine.items.push(it);
            if rng.chance(20) {
                machine.items.push(Item::Li(6, map.rw_addr(rng)));
                machine.items.push(Item::Store(rng.below(3) as u8, 11, 6, 0));
            }
        }
        for t in [&mut machine.tapes.private, &mut machine.tapes.public, &mut machine.tapes.call, &mut machine.tapes.event] {
            if rng.chance(20) { let k = rng.usize(t.len() + 1); t.truncate(k); }
        }
        let crashes = (0..rng.small(3)).map(|_| (rng.below(300) as u16, rng.below(60) as u16)).collect();
        C01Case { machine, crashes }
    }
    fn run(&self, c: &C01Case, ctx: &mut Ctx) -> Outcome {
        let (p, s0, m0) = setup(&c.machine)?;
        let run = Run::new(m0, 600);
        probes(&run, ctx);
        log_run(&run, ctx);
        ctx.nontrivial = run.did.iter().filter(|d| d.read.as_ref().is_some_and(|r| !r.2.is_empty())).count() >= 2;
        let mut snaps = vec![s0];
        let mut crashes = c.crashes.clone();
        while snaps.len() <= run.did.len() {
            let k = snaps.len() - 1;
            if let Some(i) = crashes.iter().position(|x| usize::from(x.0) == k) {
                let back = usize::from(crashes.swap_remove(i).1).min(k);
                snaps.truncate(k + 1 - back);
                ctx.fault("crash and resume from an older snapshot");
                ctx.log(|| format!("crash at {k}, back to {}", k - back));
                continue;
            }
            let (aux, _, next) = unwrap_step(step1(&p, &snaps[k]), k, &run.did[k])?;
            if let Some(d) = transfer_diff(&aux, &run.did[k]) { violate!("transfer", "step {k}: {d}"); }
            ok_state(&next, &run.states[k + 1], if run.did[k].read.is_some() { "delivery" } else { "state" }, &format!("after step {k} ({:?})", run.did[k].read))?;
            snaps.push(next);
        }
        if let Some(stop) = &run.stop { check_stop(stop, step1(&p, snaps.last().unwrap()), run.did.len())?; }
        Ok(())
    }
}

// ------------------------------------------------------------------ C02 and C03

fn gen_general(rng: &mut Rng, thorough: bool, edge: u64) -> Machine {
    let writable_code = rng.chance(25);
    let (mut m, map) = gen_layout(rng, writable_code);
    let n = rng.range(4, if thorough { 60 } else { 30 }) as usize;
    m.items = gen_items(rng, &map, n, edge);
    m.halt = rng.chance(96);
    m
}

pub struct C02;
#[derive(Serialize, Deserialize)]
pub struct C02Case {
    machine: Machine,
    again: u64,
}
fn texts(p: &mozak_runner::elf::Program, s: St) -> Result<Vec<String>, String> {
    match guarded(|| whole(p, s, MAX_STEPS)) {
        Err(e) => Err(format!("crashed: {e}")),
        Ok(Err(e)) => Err(format!("failed: {e}")),
        Ok(Ok(r)) => {
            let mut v: Vec<String> = r.executed.iter().map(row_text).collect();
            if let Some(l) = r.executed.last() { v.push(row_text(&Row { state: r.last_state.clone(), ..l.clone() })); }
            Ok(v)
        }
    }
}
impl Prop for C02 {
    type Case = C02Case;
    fn info(&self) -> Info {
        Info {
            id: "C02",
            rule: "seeded RV32IM programs (register, immediate, load, store, branch, jump, loops, all system calls, edge addresses, unknown words), run in lockstep with a reference machine over the raw words and then again under other hash-map keys; non-trivial: at least 10 instructions executed",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 700_000,
            components: COMPONENTS,
            assumptions: ASSUME,
            unit: "executed instructions",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> C02Case { C02Case { machine: gen_general(rng, thorough, 3), again: rng.u64() } }
    fn run(&self, c: &C02Case, ctx: &mut Ctx) -> Outcome {
        let (p, s0, m0) = setup(&c.machine)?;
        let run = Run::new(m0, MAX_STEPS);
        probes(&run, ctx);
        log_run(&run, ctx);
        ctx.nontrivial = run.did.len() >= 10;
        let mut s = s0.clone();
        for (k, did) in run.did.iter().enumerate() {
            let (_, _, next) = unwrap_step(step1(&p, &s), k, did)?;
            ok_step(&next, &run.states[k + 1], did, k + 1 == run.did.len(), "machine", &format!("after step {k} (word {:#010x} at {:#x}, syscall {:?})", did.word, run.states[k].pc, did.sys))?;
            s = next;
        }
        if let Some(stop) = &run.stop { check_stop(stop, step1(&p, &s), run.did.len())?; }
        if run.halted() && run.did.len() <= 400 {
            let a = texts(&p, s0);
            let m = &c.machine;
            ctx.fault("re-run under other hash-map keys");
            let b = isolated(c.again, || match setup(m) { Ok((p, s, _)) => texts(&p, s), Err(v) => Err(v.detail) });
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    check!(a.len() == run.did.len() + 1, "record", "the record has {} rows for {} executed instructions", a.len() - 1, run.did.len());
                    if let Some(k) = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)) {
                        violate!("repeat", "row {k} differs between two runs: {:?} / {:?}", a.get(k), b.get(k));
                    }
                }
                (Err(e), _) | (_, Err(e)) => violate!("record", "running to the halt {e}"),
            }
        }
        Ok(())
    }
}

pub struct C03;
#[derive(Serialize, Deserialize)]
pub struct C03Case {
    machine: Machine,
    /// Start the record at this step instead of the beginning.
    from: u16,
}
impl Prop for C03 {
    type Case = C03Case;
    fn info(&self) -> Info {
        Info {
            id: "C03",
            rule: "as C02; every row of the record returned for each halting program is compared with the reference machine's history, also for records that start at a resumed snapshot; non-trivial: the run halts after at least 10 instructions",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 700_000,
            components: COMPONENTS,
            assumptions: ASSUME,
            unit: "executed instructions",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> C03Case {
        let mut machine = gen_general(rng, thorough, 1);
        machine.halt = true;
        C03Case { machine, from: if rng.chance(30) { rng.below(60) as u16 } else { 0 } }
    }
    fn run(&self, c: &C03Case, ctx: &mut Ctx) -> Outcome {
        let (p, s0, m0) = setup(&c.machine)?;
        let run = Run::new(m0, MAX_STEPS);
        probes(&run, ctx);
        log_run(&run, ctx);
        if !run.halted() { return Ok(()); }
        ctx.nontrivial = run.did.len() >= 10;
        let from = usize::from(c.from).min(run.did.len() - 1);
        let mut s = s0;
        for k in 0..from { s = unwrap_step(step1(&p, &s), k, &run.did[k])?.2; }
        if from > 0 { ctx.fault("record resumed from a snapshot"); }
        let rec = match guarded(|| whole(&p, s, MAX_STEPS)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => violate!("record", "running to the halt failed: {e}"),
            Err(e) => violate!("record", "running to the halt crashed: {e}"),
        };
        let n = run.did.len() - from;
        check!(rec.executed.len() == n, "rows", "{} rows for {n} executed instructions", rec.executed.len());
        for (i, row) in rec.executed.iter().enumerate() {
            let k = from + i;
            let (before, after, did) = (&run.states[k], &run.states[k + 1], &run.did[k]);
            check!(row.state.clk == k as u64 + 2, "clock", "row {i} has clock {}, should be {}", row.state.clk, k + 2);
            ok_state(&row.state, before, "row-state", &format!("row {i}"))?;
            match p.ro_code.get_instruction(before.pc) {
                Some(Ok(inst)) => check!(*inst == row.instruction, "row-instruction", "row {i} names {:?}, the program has {inst:?}", row.instruction),
                x => violate!("row-instruction", "row {i}: no instruction at {:#x}: {x:?}", before.pc),
            }
            if let Some(d) = aux_diff(&row.aux, &row.instruction, before, after, did) {
                violate!("row-aux", "row {i} ({:?}, syscall {:?}): {d}", row.instruction, did.sys);
            }
        }
        ok_state(&rec.last_state, run.states.last().unwrap(), "final-state", "final state")?;
        Ok(())
    }
}

// ------------------------------------------------------------------------ C04

pub struct C04;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Run a copy for some steps.
    Step(u8, u8),
    Fork(u8),
    Drop(u8),
    /// The copy is lost; it starts again from the snapshot of this number.
    Crash(u8, u8),
    Snapshot(u8),
    /// Run a clone of the copy to the halt and compare its record.
    Finish(u8),
    /// Load the program again beside the running copies.
    Reload(u8),
}
#[derive(Serialize, Deserialize)]
pub struct C04Case {
    machine: Machine,
    acts: Vec<Act>,
}
impl Prop for C04 {
    type Case = C04Case;
    fn info(&self) -> Info {
        Info {
            id: "C04",
            rule: "a seeded scheduler interleaves steps, forks, drops, crashes (back to an older snapshot) and run-to-halt over several copies of one machine; every copy, snapshot and retained row is compared with the uninterrupted reference run after every action; non-trivial: at least two copies advanced and one crash or fork happened",
            level: "exploration",
            quick_runs: 4_000,
            thorough_runs: 250_000,
            components: COMPONENTS,
            assumptions: ASSUME,
            unit: "executed instructions (all copies)",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> C04Case {
        let (mut machine, map) = gen_layout(rng, rng.clone().chance(20));
        let n = rng.range(6, if thorough { 40 } else { 20 }) as usize;
        machine.items = gen_items(rng, &map, n, 1);
        for _ in 0..rng.range(2, 8) { let k = rng.usize(machine.items.len()); machine.items.insert(k, gen_read(rng, &map, 1)); }
        let acts = (0..rng.range(8, if thorough { 60 } else { 30 })).map(|_| {
            let c = rng.below(6) as u8;
            match rng.below(16) {
                0..=7 => Act::Step(c, rng.range(1, 30) as u8),
                8..=9 => Act::Fork(c),
                10 => Act::Drop(c),
                11..=12 => Act::Crash(c, rng.below(8) as u8),
                13 => Act::Snapshot(c),
                14 => Act::Finish(c),
                _ => Act::Reload(c),
            }
        }).collect();
        C04Case { machine, acts }
    }
    fn run(&self, c: &C04Case, ctx: &mut Ctx) -> Outcome {
        let (p, s0, m0) = setup(&c.machine)?;
        let original = p.clone();
        let run = Run::new(m0, 400);
        probes(&run, ctx);
        ctx.log(|| format!("run of {} steps, {:?}", run.did.len(), run.stop));
        let end = run.did.len();
        let mut copies: Vec<(usize, St)> = vec![(0, s0.clone())];
        let mut snaps: Vec<(usize, St)> = vec![(0, s0)];
        let mut rows: Vec<(usize, Row<F>, String)> = vec![];
        let (mut moved, mut events) = (std::collections::BTreeSet::new(), 0);
        for (n, a) in c.acts.iter().enumerate() {
            let pick = |i: u8, v: &Vec<(usize, St)>| usize::from(i) % v.len();
            match *a {
                Act::Step(i, count) => {
                    let i = pick(i, &copies);
                    for _ in 0..count {
                        let (k, s) = copies[i].clone();
                        if k == end {
                            if let Some(stop) = &run.stop { check_stop(stop, step1(&p, &s), k)?; }
                            break;
                        }
                        let (aux, instruction, next) = unwrap_step(step1(&p, &s), k, &run.did[k])?;
                        if let Some(d) = transfer_diff(&aux, &run.did[k]) { violate!("transfer", "action {n}, copy {i}, step {k}: {d}"); }
                        let row = Row { state: s, aux, instruction };
                        if rows.len() < 40 { let t = row_text(&row); rows.push((k, row, t)); }
                        copies[i] = (k + 1, next);
                        ctx.step(1);
                        moved.insert(i);
                    }
                    ctx.log(|| format!("step copy {i} to {}", copies[i].0));
                }
                Act::Fork(i) => if copies.len() < 6 { let i = pick(i, &copies); let x = copies[i].clone(); copies.push(x); ctx.fault("fork of a running copy"); events += 1; ctx.log(|| format!("fork {i}")); },
                Act::Drop(i) => if copies.len() > 1 { let i = pick(i, &copies); copies.remove(i); ctx.fault("copy dropped"); ctx.log(|| format!("drop {i}")); },
                Act::Crash(i, s) => {
                    let i = pick(i, &copies);
                    let s = pick(s, &snaps);
                    copies[i] = snaps[s].clone();
                    events += 1;
                    ctx.fault("crash and resume from a snapshot");
                    ctx.log(|| format!("crash {i} to {}", copies[i].0));
                }
                Act::Snapshot(i) => if snaps.len() < 8 { let i = pick(i, &copies); let x = copies[i].clone(); snaps.push(x); ctx.log(|| format!("snapshot {i}")); },
                Act::Reload(i) => {
                    let i = pick(i, &copies);
                    let (_, s, _) = setup(&c.machine)?;
                    ctx.fault("program loaded again");
                    copies[i] = (0, s);
                }
                Act::Finish(i) => if run.halted() {
                    let (k, s) = copies[pick(i, &copies)].clone();
                    let rec = match guarded(|| whole(&p, s, MAX_STEPS)) { Ok(Ok(r)) => r, Ok(Err(e)) => violate!("resume", "running a copy on from step {k} failed: {e}"), Err(e) => violate!("resume", "running a copy on from step {k} crashed: {e}") };
                    check!(rec.executed.len() == end - k, "resume", "resumed at step {k}: record has {} rows, should have {}", rec.executed.len(), end - k);
                    for (j, r) in rec.executed.iter().enumerate() { ok_state(&r.state, &run.states[k + j], "resume", &format!("resumed at step {k}, row {j}"))?; }
                    ok_state(&rec.last_state, &run.states[end], "resume", &format!("resumed at step {k}, final state"))?;
                    ctx.step((end - k) as u64);
                    ctx.log(|| format!("finish from {k}"));
                },
            }
            for (what, v) in [("copy", &copies), ("snapshot", &snaps)] {
                for (i, (k, s)) in v.iter().enumerate() { ok_state(s, &run.states[*k], "isolation", &format!("after action {n} ({a:?}), {what} {i} at step {k}"))?; }
            }
        }
        for (k, row, t) in &rows { check!(row_text(row) == *t, "rows", "the retained row of step {k} changed"); }
        check!(p == original, "program", "the program changed");
        ctx.nontrivial = moved.len() >= 2 && events >= 1;
        Ok(())
    }
}

// ------------------------------------------------------------------------ C05

pub struct C05;
#[derive(Serialize, Deserialize)]
pub struct C05Case {
    machine: Machine,
}
impl Prop for C05 {
    type Case = C05Case;
    fn info(&self) -> Info {
        Info {
            id: "C05",
            rule: "seeded programs that aim stores, tape reads and hash outputs at, before and across read-only bytes, or rewrite the memory copy of their own code; non-trivial: the run touches a read-only byte (and must stop) or overwrites its own code and goes on",
            level: "exploration",
            quick_runs: 20_000,
            thorough_runs: 900_000,
            components: COMPONENTS,
            assumptions: ASSUME,
            unit: "executed instructions",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> C05Case {
        if rng.chance(60) {
            let (mut m, map) = gen_layout(rng, false);
            let n = rng.range(2, if thorough { 20 } else { 10 }) as usize;
            m.items = gen_items(rng, &map, n, 12);
            // the last act aims at an edge
            let last = match rng.below(4) {
                0 => Item::Sys(asm::POSEIDON2, map.rw, 8, map.edge(rng).wrapping_sub(rng.below(33) as u32)),
                1 => gen_read(rng, &map, 100),
                2 => { let x = map.edge(rng); let len = rng.range(1, 9) as u32; Item::Sys(*rng.pick(&asm::TAPES), x.wrapping_sub(rng.below(9) as u32), len, 0) }
                _ => { m.items.push(Item::Li(6, map.edge(rng))); Item::Store(rng.below(3) as u8, 7, 6, (rng.below(9) as u32).wrapping_sub(4)) }
            };
            m.items.push(last);
            return C05Case { machine: m };
        }
        let (mut m, map) = gen_layout(rng, true);
        let n = rng.range(2, 12) as usize;
        let mut items = vec![];
        for _ in 0..n {
            let target = map.code + 4 * rng.below(60) as u32;
            match rng.below(4) {
                0 => items.push(Item::Sys(*rng.pick(&asm::TAPES), target, rng.range(1, 40) as u32, 0)),
                1 => items.push(Item::Sys(asm::POSEIDON2, map.rw, 8, target)),
                _ => {
                    items.push(Item::Li(6, target));
                    items.push(Item::Li(7, *rng.pick(&[0, 0x13, 0x73, 0x0000_0513, 0xffff_ffff])));
                    items.push(Item::Store(2, 7, 6, 0));
                }
            }
            if rng.chance(30) { items.push(Item::Li(28, 2)); items.push(Item::Op(0, 8, 8, 7)); items.push(Item::Back(28, 1)); }
        }
        m.items = items;
        C05Case { machine: m }
    }
    fn run(&self, c: &C05Case, ctx: &mut Ctx) -> Outcome {
        let (p, s0, m0) = setup(&c.machine)?;
        let run = Run::new(m0, 800);
        probes(&run, ctx);
        log_run(&run, ctx);
        let code = &run.states[0].code;
        let rewritten = run.states.last().unwrap().mem.iter().any(|(a, b)| code.contains_key(&(a & !3)) && run.states[0].byte(*a) != *b);
        if rewritten { ctx.probe("program overwrote its own code"); }
        ctx.nontrivial = rewritten || matches!(run.stop, Some(Stop::ReadOnly(_)));
        let mut s = s0;
        for (k, did) in run.did.iter().enumerate() {
            let (_, inst, next) = unwrap_step(step1(&p, &s), k, did)?;
            match p.ro_code.get_instruction(run.states[k].pc) {
                Some(Ok(i)) => check!(*i == inst, "code", "step {k} executed {inst:?}, the image has {i:?}"),
                x => violate!("code", "step {k}: no instruction in the image: {x:?}"),
            }
            ok_step(&next, &run.states[k + 1], did, k + 1 == run.did.len(), "memory", &format!("after step {k} (word {:#010x}, syscall {:?})", did.word, did.sys))?;
            if !did.addrs.is_empty() { for a in run.states[0].ro.iter() {
                check!(next.load_u8(*a) == run.states[0].byte(*a), "read-only", "read-only byte {a:#x} changed at step {k}");
            } }
            s = next;
        }
        if let Some(stop) = &run.stop {
            let got = step1(&p, &s);
            if let Stop::ReadOnly(_) = stop { ctx.fault("write aimed at read-only memory"); }
            check_stop(stop, got, run.did.len())?;
            ok_state(&s, run.states.last().unwrap(), "read-only", "the state kept from before the refused write")?;
            if matches!(stop, Stop::ReadOnly(_)) {
                if let Ok(Ok(_)) = guarded(|| whole(&p, s, MAX_STEPS)) { violate!("read-only", "a run that writes read-only memory completed"); }
            }
        }
        Ok(())
    }
}
