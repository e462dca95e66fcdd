//! C20: tables that every verifier check accepts tell of an execution the machine makes.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::cell::Cell;

use mozak_circuits::sim::{traces, Blind, System, Tables, F};
use mozak_runner::state::State;
use plonky2::field::types::{Field, PrimeField64};
use serde::{Deserialize, Serialize};
use simkit::{guarded, violate, Ctx, Info, Outcome, Prop, Rng};

use crate::asm::{d32, gen_items, gen_layout, gen_read, Item, Machine};
use crate::forge::{halts, fitting, forged, jump, spot, Forgery, Kind};
use mozak_circuits::poseidon2_sponge::columns::Poseidon2Sponge;
use crate::model::{Model, Run, Stop};
use crate::real::{program, raw_tapes, whole};
use crate::spread::Spread;
use crate::solver::{answer, Knowledge, Search};
use crate::story::{story, verdict, COMMITMENT_ORDER, READ_SIZE, REGISTER_INIT, SELF_ID};
use crate::verdict::{faults, Fault, Known};
use crate::walk::{Edit, Walk};

pub struct Ready { pub s: System, pub k: Knowledge, pub spread: std::cell::RefCell<Option<Option<Spread>>> }
thread_local!(pub static READY: std::cell::RefCell<Option<Ready>> = const { std::cell::RefCell::new(None) });

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub machine: Machine,
    pub forgeries: Vec<Forgery>,
    /// Seeds of walks from the honest tables.
    pub touches: Vec<u64>,
    pub seed: u64,
}
pub struct C20;

pub fn blind() -> Option<Blind> {
    let v = std::env::var("C20_BLIND").ok()?;
    let x: Vec<&str> = v.split(',').collect();
    let n = |i: usize| x[i].parse().unwrap();
    Some(match x[0] { "c" => Blind::Constraint(n(1), n(2)), "l" => Blind::Lookup(n(1)), _ => Blind::Side(n(1), n(2)) })
}

/// Cells of a permutation changed per hash.
const ROUND_TRIES: usize = 60;

/// Tries to make the tables acceptable; true if they are.
pub fn complete(r: &Ready, t: &mut Tables, known: &Known, seed: u64, ctx: &mut Ctx) -> bool {
    let (s, k) = (&r.s, &r.k);
    let show = std::env::var("C20_SHOW").is_ok();
    let mut left = 3;
    loop {
        let f = faults(s, t, known);
        if show { for x in f.iter().take(12) { eprintln!("  fault {}", x.text(s)); } eprintln!("  --"); }
        if f.is_empty() { return true; }
        if left == 0 { return false; }
        left -= 1;
        let mut spots = BTreeSet::new();
        for x in &f {
            match x {
                Fault::Constraint { table, row, .. } => { spots.insert((*table, *row)); }
                Fault::Lookup { lookup, .. } if k.places.answers.contains(lookup) => {}
                Fault::Shape(i) if *i == k.u8_kind => {}
                _ => return false,
            }
        }
        if spots.len() > 8 { return false; }
        ctx.probe("repairs tried");
        let mut search = Search { s, k, entry: known.entry, rng: Rng::new(seed), budget: Cell::new(80) };
        let mut done: Option<Tables> = None;
        let mut leaves = 4;
        // First where every range check passes, then anywhere.
        let mut second: Option<Tables> = None;
        // Two bits of one row that make up for each other are among many.
        let bits = spots.iter().all(|x| k.places.bits.contains(&x.0));
        for (depth, budget) in [(2, 250), (8, 80)].into_iter().skip(usize::from(!bits)) {
            search.budget.set(budget);
            search.dfs(t, &spots, &mut BTreeMap::new(), depth, &mut |t, bad| {
                if bad > 0 { if second.is_none() { second = Some(t.clone()); } return false; }
                leaves -= 1;
                let mut u = t.clone();
                answer(s, k, &mut u);
                let ok = faults(s, &u, known).is_empty();
                if ok || leaves == 0 { done = Some(u); }
                ok || leaves == 0
            });
            if done.is_some() { break; }
        }
        match done.or(second) {
            Some(mut u) => { answer(s, k, &mut u); *t = u; }
            None => { if spots.is_empty() { answer(s, k, t); } else { return false; } }
        }
    }
}

/// Rows of a table by what they are told apart with in the story.
fn differing(s: &System, l: usize, kind: usize, t: &Tables, h: &Tables) -> Vec<(u64, usize, Vec<usize>)> {
    let mut out = vec![];
    for side in s.lookups[l].iter().filter(|x| x.kind as usize == kind) {
        let said = |t: &Tables| -> Vec<Option<Vec<u64>>> { let r = &t[kind]; (0..r.len()).map(|i| { let (v, f) = side.at(&r[i], &r[(i + 1) % r.len()]); (f != F::ZERO).then(|| v.iter().map(F::to_canonical_u64).collect()) }).collect() };
        let honest: HashSet<Vec<u64>> = said(h).into_iter().flatten().collect();
        let cells: Vec<usize> = side.columns.iter().chain([&side.filter]).flat_map(|c| c.lv_linear_combination.iter().map(|x| x.0)).collect();
        for (i, v) in said(t).into_iter().enumerate() { if let Some(v) = v { if !honest.contains(&v) { out.push((v[0], i, cells.clone())); } } }
    }
    out
}

/// Walks from these tables to acceptable ones, without giving up the lie in them.
pub struct Stroll<'a> { r: &'a Ready, known: &'a Known, pins: Vec<(usize, usize, usize)>, h: &'a Tables, w: Walk<'a>, honest: bool }
impl<'a> Stroll<'a> {
    pub fn new(r: &'a Ready, t: &Tables, h: &'a Tables, honest: bool, known: &'a Known) -> Self {
        let (s, k) = (&r.s, &r.k);
        let (register, memory, skeleton) = (s.kind("Register"), s.kind("Memory"), s.kind("CpuSkeleton"));
        let mut lies: Vec<(u64, usize, usize, Vec<usize>)> = vec![];
        for (l, kind) in [(k.places.registers, register), (k.places.memory, memory), (k.places.skeleton, skeleton)] {
            for (clk, row, cells) in differing(s, l, kind, t, h) { lies.push((clk, kind, row, cells)); }
        }
        let first = lies.iter().map(|x| x.0).min();
        let mut pins = vec![];
        for (clk, kind, row, cells) in &lies { if Some(*clk) == first { for c in cells { pins.push((*kind, *row, *c)); } } }
        // That registers may hold anything at first is known.
        let init = s.kind("RegisterInit");
        for l in &s.lookups { for x in l.iter().filter(|x| x.kind as usize == init) { if let Some(c) = x.columns.last() { for (i, _) in &c.lv_linear_combination { for r in 0..t[init].len() { pins.push((init, r, *i)); } } } } }
        Stroll { r, known, pins, h, w: Walk::new(s, k, known, t.clone(), h, true, Rng::new(0)), honest }
    }
    /// Does not give up the stores to these addresses.
    pub fn keep(&mut self, at: impl Fn(u64) -> bool) {
        let (s, k) = (&self.r.s, &self.r.k);
        let memory = s.kind("Memory");
        for side in s.lookups[k.places.memory].iter().filter(|x| x.kind as usize == memory) {
            let t = &self.w.t[memory];
            for i in 0..t.len() {
                let (v, f) = side.at(&t[i], &t[(i + 1) % t.len()]);
                if f == F::ZERO || v[1] == F::ZERO || !at(v[3].to_canonical_u64()) { continue; }
                for c in side.columns.iter().chain([&side.filter]).flat_map(|c| c.lv_linear_combination.iter().map(|x| x.0)) { self.pins.push((memory, i, c)); }
            }
        }
    }
    pub fn go(&mut self, seed: u64, ctx: &mut Ctx) -> Option<Tables> {
        let (s, k) = (&self.r.s, &self.r.k);
        let show = std::env::var("C20_SHOW").is_ok();
        let mut rng = Rng::new(seed);
        let w = &mut self.w;
        w.back(rng.fork());
        if w.score() > 60 { ctx.probe("far from acceptable"); return None; }
        w.pinned.extend(self.pins.iter().copied());
        if self.honest { touched(w, &mut rng); } else if rng.below(3) == 0 { kicked(w, s, &mut rng); }
        ctx.probe("walks");
        if show { eprintln!("walk from {}", w.score()); w.show(); }
        let ceiling = w.score() + 12;
        let there = w.go(150, ceiling, show);
        if !there && !w.only_answers() { return None; }
        let mut u = w.t.clone();
        answer(s, k, &mut u);
        if there && faults(s, &u, self.known).is_empty() { ctx.probe("walks that arrive"); return Some(u); }
        let mut w = Walk::new(s, k, self.known, u, self.h, false, rng.fork());
        if show { eprintln!("answers from {}", w.score()); w.show(); }
        let c = w.score() + 12;
        if w.score() < 20 && w.go(150, c, show) && faults(s, &w.t, self.known).is_empty() { ctx.probe("walks that arrive"); return Some(w.t); }
        None
    }
}
/// Changes some cells of honest tables, to stay so.
fn touched(w: &mut Walk, rng: &mut Rng) {
    let free: Vec<usize> = (0..w.t.len()).filter(|i| !w.fixed[*i] && w.t[*i].iter().any(|r| r != w.t[*i].last().unwrap())).collect();
    for _ in 0..1 + rng.below(2) {
        let x = *rng.pick(&free);
        let n = w.t[x].len();
        let live: Vec<usize> = (0..n).filter(|r| w.t[x][*r] != w.t[x][n - 1]).collect();
        let row = if live.is_empty() || rng.below(8) == 0 { rng.usize(n) } else { *rng.pick(&live) };
        let other = match rng.below(4) { 0 => rng.usize(n), 1 => n - 1, 2 => (row + n - 1) % n, _ => (row + 1) % n };
        let c = rng.usize(w.t[x][row].len());
        let v = w.t[x][row][c];
        match rng.below(10) {
            0 | 1 => {
                let u = w.t[x][other][c];
                if row != other { w.apply(&Edit::Cells(vec![((x, row, c), u), ((x, other, c), v)])); }
                w.pinned.extend([(x, row, c), (x, other, c)]);
            }
            2 => w.swap(x, row, other),
            3 => {
                if !w.roomy(x) { return; }
                if rng.below(2) == 0 { let r = w.t[x][row].clone(); w.apply(&Edit::Insert(x, other, r)); } else { w.remove(x, row); }
            }
            k => {
                let u = match k { 4 => v + F::ONE, 5 => v - F::ONE, 6 => F::ONE - v, 7 => F::from_canonical_u32(rng.word()), 8 => w.t[x][other][c], _ => { let d = rng.usize(w.t[x][row].len()); w.t[x][row][d] } };
                w.apply(&Edit::Cells(vec![((x, row, c), u)]));
                w.pinned.insert((x, row, c));
            }
        }
    }
}
/// Changes something no single step of the walk would.
fn kicked(w: &mut Walk, s: &System, rng: &mut Rng) {
    let mut spots: Vec<(usize, usize)> = w.troubled();
    spots.retain(|x| !w.fixed[x.0]);
    let free: Vec<usize> = (0..w.t.len()).filter(|i| !w.fixed[*i]).collect();
    let (table, row) = if !spots.is_empty() && rng.below(4) > 0 { *rng.pick(&spots) } else { let x = *rng.pick(&free); (x, rng.usize(w.t[x].len())) };
    match rng.below(5) {
        // A row and the last one change places.
        0 => { let l = w.t[table].len() - 1; w.swap(table, row, l); }
        // A row once more instead of the last one, or one less.
        1 | 2 if !w.roomy(table) => {}
        1 => { let r = w.t[table][row].clone(); w.apply(&Edit::Insert(table, row, r)); }
        2 => w.remove(table, row),
        // Several selectors that together look like the one.
        _ => {
            let (cpu, rom) = (s.kind("Cpu"), s.kind("ProgramMult"));
            let Some(side) = s.lookups.iter().filter(|l| l.iter().any(|x| x.kind as usize == rom)).flat_map(|l| l.iter()).find(|x| x.kind as usize == cpu) else { return };
            let Some(packed) = side.columns.iter().find(|c| c.lv_linear_combination.len() > 12) else { return };
            let weight = |i: usize| packed.lv_linear_combination.iter().find(|x| x.0 == i).map_or(F::ZERO, |x| x.1);
            let width = w.t[cpu][0].len();
            let Some(ops) = s.cells(cpu).iter().filter(|c| c.len() > 12 && c.iter().all(|i| *i < width) && c.iter().filter(|i| weight(**i) == F::ZERO).count() <= 1).max_by_key(|c| c.len()) else { return };
            let row = spots.iter().find(|x| x.0 == cpu).map_or(rng.usize(w.t[cpu].len()), |x| x.1);
            let Some(was) = ops.iter().copied().find(|i| w.t[cpu][row][*i] == F::ONE) else { return };
            let mut v: Vec<(usize, F)> = vec![];
            let n = rng.below(3);
            let c = *rng.pick(ops);
            if n == 0 {
                // Two of no whole number of times.
                let j = *rng.pick(ops);
                if j == c || weight(j) == weight(c) { return; }
                let x = (weight(was) - weight(j)) * (weight(c) - weight(j)).inverse();
                v.extend([(c, x), (j, F::ONE - x)]);
            } else {
                let mut left = weight(was) + weight(c) * F::from_canonical_u64(n);
                for i in 0..=n {
                    let fit: Vec<usize> = ops.iter().copied().filter(|o| *o != c && v.iter().all(|y| y.0 != *o) && (i < n || weight(*o) == left)).collect();
                    if fit.is_empty() { return; }
                    let o = *rng.pick(&fit);
                    left -= weight(o);
                    v.push((o, F::ONE));
                }
                v.push((c, -F::from_canonical_u64(n)));
            }
            let e: Vec<_> = ops.iter().map(|i| ((cpu, row, *i), v.iter().find(|x| x.0 == *i).map_or(F::ZERO, |x| x.1))).collect();
            w.pinned.extend(e.iter().map(|x| x.0));
            w.apply(&Edit::Cells(e));
        }
    }
}

impl Prop for C20 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C20",
            rule: "seeded programs, and seeded lies about their execution: forged records, edited rows, cells solved for; whatever passes every check of the tables is replayed on the reference machine",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 400_000,
            components: &[("circuits: columns, constraints, lookups, generation", "real"), ("runner", "real"), ("polynomial commitments, FRI", "left out: rows are checked one by one")],
            assumptions: &[],
            unit: "table rows checked",
        }
    }
    fn gen(&self, r: &mut Rng, _thorough: bool) -> Case {
        let (mut m, map) = gen_layout(r, false);
        let n = r.range(1, 12) as usize;
        m.items = gen_items(r, &map, n, 0);
        for i in &mut m.items {
            if let Item::Sys(7 | 8, _, len, _) = i { *len = 32 + r.below(3) as u32; }
            if let Item::Sys(n, _, len, _) = i { if *n > 10 { *n = 10; *len %= 16; } }
        }
        let mut forgeries: Vec<Forgery> = (0..5).map(|_| Forgery::gen(r)).collect();
        match r.below(8) {
            0 => {
                let len = 8 * r.range(1, 4) as u32;
                m.items.insert(0, Item::Sys(3, map.rw_addr(r) & !7, len, map.rw_addr(r)));
            }
            1 => {
                let x = gen_read(r, &map, 0);
                if let Item::Sys(n, a, len, _) = x { m.items.insert(0, Item::Sys(n, a, if n == 7 || n == 8 { 32 } else { len % 40 }, 0)); }
            }
            _ => {}
        }
        if r.below(14) == 0 {
            // A program that writes what it must not.
            let (x, a) = (r.below(8) as u8 + 5, map.edge(r));
            let at = if r.below(2) == 0 { 0 } else { m.items.len() };
            let load = Item::Load(r.below(5) as u8, 13, x, 0);
            m.items.splice(at..at, [Item::Li(x, a), Item::Store(r.below(3) as u8, r.below(32) as u8, x, 0), load]);
        }
        if r.below(60) == 0 {
            let n = 7 + r.below(3) as u32;
            m.items = (0..2).map(|i| Item::Sys(n, 0x1000_0000 * (i + 1), 32, 0)).collect();
            m.items.extend(gen_items(r, &map, 2, 0).into_iter().filter(|x| !matches!(x, Item::Sys(..))));
            forgeries[0].kind = Kind::TapeBytes;
        }
        let touches = (0..20).map(|_| r.u64()).collect();
        Case { machine: m, forgeries, touches, seed: r.u64() }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        let segs = c.machine.segments();
        let entry = c.machine.code_addr & !3;
        let run = Run::new(Model::load(entry, &segs, &c.machine.tapes), 120);
        if !run.halted() && !matches!(run.stop, Some(Stop::ReadOnly(_))) { return Ok(()); }
        if run.did.iter().any(|d| matches!(&d.read, Some((7 | 8, _, b)) if b.len() < 32)) { return Ok(()); }
        if run.did.iter().any(|d| d.sys.map_or(false, |n| n > 10)) { return Ok(()); }
        if run.did.iter().filter_map(|d| d.hash.as_ref()).any(|h| h.input.checked_add(h.len).is_none() || h.output.checked_add(32).is_none()) { return Ok(()); }
        let real = program(&c.machine)?;
        let mut p = real.clone();
        if !run.halted() {
            // The machine stops; one that may write everything does not.
            let ro = std::mem::take(&mut p.ro_memory.0);
            p.rw_memory.0.extend(ro);
        }
        let s0: State<F> = State::new(p.clone(), raw_tapes(&c.machine.tapes));
        if !run.halted() && !halts(&p, &s0, 130) { return Ok(()); }
        let Ok(honest) = whole(&p, s0.clone(), 130) else { return Ok(()) };
        let Ok(h) = guarded(|| traces(&p, &honest)) else { ctx.probe("no tables"); return Ok(()) };
        let commitments = [d32(&c.machine.tapes.events_commitment).to_vec(), d32(&c.machine.tapes.cast_commitment).to_vec()];
        let known = Known::new(&real, &commitments[0], &commitments[1]);
        let survey = std::env::var("C20_SURVEY").is_ok();
        READY.with(|r| {
            let mut r = r.borrow_mut();
            let r = &*r.get_or_insert_with(|| {
                let mut s = System::default();
                s.blind = None;
                let mut x = Rng::new(0x20);
                if let Err(e) = s.agrees(|| x.u64()) { panic!("{e}"); }
                let widths: Vec<usize> = h.iter().map(|x| x[0].len()).collect();
                let k = Knowledge::new(&s, &widths);
                s.blind = blind();
                if std::env::var("C20_LIST").is_ok() {
                    for t in 0..s.names.len() { for c in 0..s.cells(t).len() { println!("c,{t},{c} {} {:?}", s.names[t], s.cells(t)[c]); } }
                    for l in 0..s.lookups.len() { println!("l,{l} {}", crate::verdict::look_name(&s, l)); for (i, x) in s.lookups[l].iter().enumerate() { println!("s,{l},{i} {} {:?}", s.names[x.kind as usize], x.columns); } }
                    std::process::exit(0);
                }
                Ready { s, k, spread: Default::default() }
            });
            let judge = |t: &Tables, name: &str, k: usize, ctx: &mut Ctx| -> Outcome {
                ctx.probe(&format!("accepted: {name}"));
                match story(&r.s, &r.k.places, t).map_err(|e| ("story", e)).and_then(|st| verdict(entry, &segs, &commitments, &st)) {
                    Ok(()) => { ctx.probe("accepted and true"); Ok(()) }
                    Err((class, _)) if survey => { ctx.probe(&format!("LIE {class}-{name}")); Ok(()) }
                    Err((class @ (READ_SIZE | REGISTER_INIT | SELF_ID | COMMITMENT_ORDER), what)) => violate!(class, "{what}"),
                    Err((class, what)) => violate!(format!("{class}-{name}"), "step {k}: {what}"),
                }
            };
            let rows = |t: &Tables| t.iter().map(|x| x.len() as u64).sum();
            ctx.nontrivial = true;
            ctx.step(rows(&h));
            if !run.halted() {
                ctx.fault("ReadOnly");
                let Ok(start) = guarded(|| traces(&real, &honest)) else { ctx.probe("no tables"); return Ok(()) };
                let mut t = start.clone();
                let mut ok = complete(r, &mut t, &known, c.seed, ctx);
                if !ok {
                    let mut w = Stroll::new(r, &start, &h, false, &known);
                    w.keep(|a| real.ro_memory.0.contains_key(&(a as u32)));
                    for i in 0..4 { if let Some(u) = w.go(c.seed ^ i, ctx) { t = u; ok = true; break; } }
                }
                ctx.log(|| format!("read-only: {ok}"));
                if ok { judge(&t, "ReadOnly", 0, ctx)?; }
                return Ok(());
            }
            let mut t = h.clone();
            let ok = complete(r, &mut t, &known, c.seed, ctx);
            ctx.log(|| format!("honest: {ok}"));
            if ok { judge(&t, "honest", 0, ctx)?; }
            if !c.touches.is_empty() {
                let mut w = Stroll::new(r, &h, &h, true, &known);
                for x in &c.touches {
                    ctx.fault("cells changed");
                    let got = w.go(*x, ctx);
                    ctx.log(|| format!("touched {x}: {}", got.is_some()));
                    if let Some(t) = got { judge(&t, "touched", 0, ctx)?; }
                }
            }
            for f in &c.forgeries {
                let f = &fitting(&honest, f);
                let mut round = None;
                if f.kind == Kind::HashRound {
                    let Some(e) = spot(&honest, f).and_then(|k| honest.executed[k].aux.poseidon2.as_ref()) else { continue };
                    let permuted = &h[r.s.kind("Poseidon2")];
                    let mut x = Rng::new(u64::from(f.a) << 32 | u64::from(f.b));
                    let mut spread = r.spread.borrow_mut();
                    let Some(sp) = spread.get_or_insert_with(|| Spread::new(&r.s, &permuted[0], &mut Rng::new(20))) else { continue };
                    let j = x.usize(e.sponge_data.len());
                    let want: Vec<u64> = e.sponge_data[j].preimage.iter().map(F::to_canonical_u64).collect();
                    let Some(row) = permuted.iter().find(|y| sp.key(y) == want) else { continue };
                    for _ in 0..ROUND_TRIES {
                        let cell = x.usize(row.len());
                        if sp.inputs.contains(&cell) { continue; }
                        ctx.fault("HashRound");
                        let by = if x.below(2) == 0 { F::ONE } else { F::from_noncanonical_u64(x.u64()) };
                        if let Some(y) = sp.changed(&r.s, row, cell, by) {
                            let out: Vec<F> = sp.outputs.iter().map(|o| y[*o]).collect();
                            round = Some((j, out.try_into().unwrap(), y));
                            break;
                        }
                    }
                    if round.is_none() { continue; }
                    ctx.probe("permutation rows no constraint minds");
                }
                let Some((record, k)) = forged(&p, &s0, &honest, f, round.as_ref().map(|x| (x.0, x.1)), 160) else { continue };
                let mut t = match guarded(|| traces(&p, &record)) {
                    Ok(t) => t,
                    Err(e) => { if std::env::var("C20_SHOW").is_ok() { eprintln!("generation: {e}"); } ctx.probe("no tables"); continue }
                };
                if f.kind == Kind::HashJump {
                    let e = &record.executed[k];
                    let Some((j, by)) = e.aux.poseidon2.as_ref().and_then(|x| jump(f, x.sponge_data.len())) else { continue };
                    let rows = t[r.s.kind("Poseidon2Sponge")].iter_mut().filter(|x| { let v: Poseidon2Sponge<F> = x.iter().copied().collect(); v.clk == F::from_canonical_u64(e.state.clk) });
                    for row in rows.skip(j) {
                        let mut v: Poseidon2Sponge<F> = row.iter().copied().collect();
                        v.input_addr = F::from_canonical_u32((v.input_addr.to_canonical_u64() as u32).wrapping_add(by));
                        *row = v.into_iter().collect();
                    }
                }
                if let (Some((j, _, y)), Some(e)) = (round, record.executed[k].aux.poseidon2.as_ref()) {
                    let spread = r.spread.borrow();
                    let sp = spread.as_ref().unwrap().as_ref().unwrap();
                    let want: Vec<u64> = e.sponge_data[j].preimage.iter().map(F::to_canonical_u64).collect();
                    if let Some(row) = t[sp.table].iter_mut().find(|y| sp.key(y) == want) { *row = y; }
                }
                let name = format!("{:?}", f.kind);
                ctx.step(rows(&t));
                ctx.fault(&name);
                let start = t.clone();
                let mut ok = complete(r, &mut t, &known, c.seed, ctx);
                if !ok && std::env::var("C20_NOWALK").is_err() {
                    let mut w = Stroll::new(r, &start, &h, false, &known);
                    for i in 0..3 { if let Some(u) = w.go(c.seed ^ i, ctx) { t = u; ok = true; break; } }
                }
                ctx.log(|| format!("{name} at {k}: {ok}"));
                if ok { judge(&t, &name, k, ctx)?; }
            }
            Ok(())
        })
    }
}
