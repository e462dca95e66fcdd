//! Would a verifier accept these tables?
use std::collections::HashMap;

use mozak_circuits::memoryinit::generation::generate_elf_memory_init_trace;
use mozak_circuits::program::generation::generate_program_rom_trace;
use mozak_circuits::sim::{columns_of, Blind, Row, System, Tables, F};
use mozak_runner::elf::Program;
use plonky2::field::types::{Field, Field64, PrimeField64};

/// What the verifier knows.
pub struct Known {
    pub entry: F,
    pub rom: Vec<Row>,
    pub elf_init: Vec<Row>,
    /// events, cast list
    pub commitments: [Vec<u8>; 2],
}
impl Known {
    pub fn new(p: &Program, events: &[u8], castlist: &[u8]) -> Self {
        Known {
            entry: F::from_canonical_u32(p.entry_point),
            rom: generate_program_rom_trace::<F>(p).into_iter().map(|r| r.into_iter().collect()).collect(),
            elf_init: generate_elf_memory_init_trace::<F>(p).into_iter().map(|r| r.into_iter().collect()).collect(),
            commitments: [events.to_vec(), castlist.to_vec()],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    Shape(usize),
    Public(usize),
    Constraint { table: usize, index: usize, row: usize },
    Lookup { lookup: usize, tuple: Vec<u64>, by: u64 },
    Commitment(usize),
}
impl Fault {
    pub fn text(&self, s: &System) -> String {
        match self {
            Fault::Shape(t) => format!("table {} has no length the proof system takes", s.names[*t]),
            Fault::Public(t) => format!("table {} is not the program's", s.names[*t]),
            Fault::Constraint { table, index, row } => format!("constraint {index} of {} at row {row}", s.names[*table]),
            Fault::Lookup { lookup, tuple, by } => format!("lookup {} off by {} at {tuple:?}", look_name(s, *lookup), if *by > 1 << 63 { *by as i128 - F::ORDER as i128 } else { i128::from(*by) }),
            Fault::Commitment(i) => format!("public sub table {i} shows other bytes"),
        }
    }
}
pub fn look_name(s: &System, l: usize) -> String {
    let v: Vec<&str> = s.lookups[l].iter().map(|x| s.names[x.kind as usize].as_str()).collect();
    format!("{l} ({} -> {})", v[0], v[v.len() - 1])
}

pub fn constraints(s: &System, table: usize, rows: &[Row], entry: F, out: &mut Vec<Fault>, max: usize) {
    let n = rows.len();
    for i in 0..n {
        if out.len() >= max { return; }
        s.broken(table, &rows[i], &rows[(i + 1) % n], i == 0, i + 1 == n, &[entry], |index, _| out.push(Fault::Constraint { table, index, row: i }));
    }
}

pub fn tuples(rows: &[Row], side: &mozak_circuits::sim::Side, to: &mut HashMap<Vec<u64>, F>) {
    let n = rows.len();
    for i in 0..n {
        let (t, f) = side.at(&rows[i], &rows[(i + 1) % n]);
        if f != F::ZERO { *to.entry(t.iter().map(F::to_canonical_u64).collect()).or_insert(F::ZERO) += f; }
    }
}
pub fn lookup(s: &System, l: usize, t: &Tables, out: &mut Vec<Fault>) {
    if s.blind == Some(Blind::Lookup(l)) { return; }
    let mut m: HashMap<Vec<u64>, F> = HashMap::new();
    for (i, side) in s.lookups[l].iter().enumerate() {
        if s.blind == Some(Blind::Side(l, i)) { continue; }
        tuples(&t[side.kind as usize], side, &mut m);
    }
    let mut bad: Vec<_> = m.into_iter().filter(|x| x.1 != F::ZERO).collect();
    bad.sort_unstable_by(|a, b| a.0.cmp(&b.0));
    for (tuple, by) in bad { out.push(Fault::Lookup { lookup: l, tuple, by: by.to_canonical_u64() }); }
}

/// Everything wrong with the tables (stops collecting once there is plenty).
pub fn faults(s: &System, t: &Tables, k: &Known) -> Vec<Fault> {
    let mut out = vec![];
    for (i, rows) in t.iter().enumerate() {
        if !rows.len().is_power_of_two() || rows.iter().any(|r| r.len() != rows[0].len()) { out.push(Fault::Shape(i)); }
    }
    if !out.is_empty() { return out; }
    if t[s.kind("Program")] != k.rom { out.push(Fault::Public(s.kind("Program"))); }
    if t[s.kind("ElfMemoryInit")] != k.elf_init { out.push(Fault::Public(s.kind("ElfMemoryInit"))); }
    for (i, rows) in t.iter().enumerate() { constraints(s, i, rows, k.entry, &mut out, 40); }
    for l in 0..s.lookups.len() { lookup(s, l, t, &mut out); }
    for (i, (side, n)) in s.public.iter().enumerate() {
        let mut got: HashMap<Vec<u64>, F> = HashMap::new();
        tuples(&t[side.kind as usize], side, &mut got);
        let mut want: HashMap<Vec<u64>, F> = HashMap::new();
        for b in &k.commitments[i] { *want.entry(vec![u64::from(*b)]).or_insert(F::ZERO) += F::ONE; }
        got.retain(|_, x| *x != F::ZERO);
        if got != want || k.commitments[i].len() != *n { out.push(Fault::Commitment(i)); }
    }
    out
}

/// The sums the real prover computes, per lookup.
pub fn real_sums(s: &System, t: &Tables, beta: F, gamma: F) -> Vec<F> {
    let cols: Vec<_> = t.iter().map(|r| columns_of(r)).collect();
    s.lookups.iter().map(|l| l.iter().map(|x| x.real_sum(&cols[x.kind as usize], beta, gamma)).sum()).collect()
}
