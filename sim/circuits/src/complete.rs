//! C19: honest executions fill tables every verifier check accepts.
use mozak_circuits::sim::{traces, System, F};
use mozak_runner::state::State;
use plonky2::field::types::Field;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};

use crate::asm::{d32, gen_items, gen_layout, Item, Machine};
use crate::model::{Model, Run};
use crate::real::{program, raw_tapes, whole};
use crate::verdict::{faults, real_sums, Known};

thread_local!(pub static SYSTEM: System = System::default());

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub machine: Machine,
    pub challenge: (u64, u64),
}
pub struct C19;

/// An operand: anything, close to nought, or close to a power of two, of either sign.
fn operand(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.word(),
        1 => (r.below(81) as u32).wrapping_sub(40),
        2 => (1u32 << r.below(32)).wrapping_add(r.below(7) as u32).wrapping_sub(3),
        _ => 0u32.wrapping_sub(1 << r.below(32)).wrapping_add(r.below(7) as u32).wrapping_sub(3),
    }
}
/// Arithmetic and branches, one pair of operands after the other.
pub fn dense(r: &mut Rng, n: usize) -> Vec<Item> {
    let mut v = vec![];
    for _ in 0..n {
        let (a, b) = (r.below(8) as u8 + 5, r.below(8) as u8 + 5);
        if r.chance(80) { v.push(Item::Li(a, operand(r))); }
        match r.below(10) {
            0..=6 => { v.push(Item::Li(b, operand(r))); v.push(Item::Op(r.below(18) as u8, r.below(14) as u8, a, b)); }
            7 => { v.push(Item::Li(b, operand(r))); v.push(Item::Br(r.below(6) as u8, a, b, 0)); }
            _ => v.push(Item::OpImm(r.below(9) as u8, b, a, operand(r))),
        }
    }
    v
}
impl Prop for C19 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C19",
            rule: "seeded programs, tapes and data run on the real runner; the real generators fill the tables; every constraint holds on every row, every lookup balances, the public bytes are the commitments",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 100_000,
            components: &[("circuits: generation, columns, constraints, lookups", "real"), ("runner", "real"), ("polynomial commitments, FRI", "left out: rows are checked one by one")],
            assumptions: &[
                "commitment tapes are read as 32 bytes or not at all (the SDK's reads); shorter reads fill only part of the public table",
                "system calls are those the SDK makes (numbers 0 to 10)",
                "hashed bytes and hash outputs end before the last address",
            ],
            unit: "table rows checked",
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let (mut m, map) = gen_layout(r, false);
        let n = r.range(1, if thorough { 40 } else { 20 }) as usize;
        m.items = if r.chance(40) { dense(r, if thorough { 200 } else { 60 }) } else { gen_items(r, &map, n, 0) };
        for i in &mut m.items { if let Item::Sys(7 | 8, _, len, _) = i { *len = 32 + r.below(3) as u32; } }
        Case { machine: m, challenge: (r.u64(), r.u64()) }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        let segs = c.machine.segments();
        let run = Run::new(Model::load(c.machine.code_addr & !3, &segs, &c.machine.tapes), 1_500);
        if !run.halted() { return Ok(()); }
        // A commitment is read as a whole or not at all.
        if run.did.iter().any(|d| matches!(&d.read, Some((7 | 8, _, b)) if b.len() < 32)) { return Ok(()); }
        // Only the calls the SDK makes.
        if run.did.iter().any(|d| d.sys.map_or(false, |n| n > 10)) { return Ok(()); }
        // Hashed bytes end before the last address.
        if run.did.iter().filter_map(|d| d.hash.as_ref()).any(|h| h.input.checked_add(h.len).is_none() || h.output.checked_add(32).is_none()) { return Ok(()); }
        let p = program(&c.machine)?;
        let s0: State<F> = State::new(p.clone(), raw_tapes(&c.machine.tapes));
        let Ok(record) = whole(&p, s0, 1_600) else { violate!("runner", "the runner does not finish") };
        let t = match guarded(|| traces(&p, &record)) { Ok(t) => t, Err(e) => violate!("generation", "{e}") };
        let k = Known::new(&p, &d32(&c.machine.tapes.events_commitment), &d32(&c.machine.tapes.cast_commitment));
        SYSTEM.with(|s| {
            let f = faults(s, &t, &k);
            if let Some(x) = f.first() { violate!("refused", "{} of {} problems: {}", 1, f.len(), x.text(s)) }
            for (i, x) in t.iter().enumerate() { ctx.log_u64((i as u64) << 40 | x.len() as u64); }
            ctx.log(|| run.did.iter().map(|d| format!("{:08x}", d.word)).collect::<Vec<_>>().join(" "));
            let mut line = Rng::new(c.challenge.0);
            for i in 0..t.len() {
                let bad = s.above_degree(i, || line.u64());
                check!(bad.is_empty(), "degree", "constraints {bad:?} of {} are of higher degree than the table declares", s.names[i]);
            }
            ctx.step(t.iter().map(|x| x.len() as u64).sum());
            let z = real_sums(s, &t, F::from_noncanonical_u64(c.challenge.0), F::from_noncanonical_u64(c.challenge.1));
            check!(z.iter().all(|x| *x == F::ZERO), "sums", "running sums {z:?}");
            Ok(())
        })?;
        ctx.nontrivial = true;
        Ok(())
    }
}
