//! Rows and lookups laid open: everything a verifier of the tables checks, without the proof system.
use mozak_runner::elf::Program;
use mozak_runner::vm::ExecutionRecord;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::sym::{self, Node, Sym};
use plonky2::field::types::Field;
use plonky2::util::timing::TimingTree;
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::generation::generate_traces;
use crate::linear_combination::{Column, ColumnSparse};
use crate::public_sub_table::PublicSubTable;
use crate::stark::mozak_stark::{all_kind, all_starks, MozakStark, TableKind, TableKindArray};
use crate::stark::permutation::challenge::GrandProductChallenge;

pub type F = GoldilocksField;
pub const D: usize = 2;
pub type Row = Vec<F>;
/// Rows of every table.
pub type Tables = Vec<Vec<Row>>;

/// One side of a lookup: looked ones have a negated filter.
pub struct Side {
    pub kind: TableKind,
    pub columns: Vec<ColumnSparse<F>>,
    pub filter: ColumnSparse<F>,
    raw: (Vec<Column>, Column),
}
impl Side {
    fn new(kind: TableKind, columns: &[Column], filter: &Column) -> Self {
        Side { kind, columns: columns.iter().map(Column::to_field).collect(), filter: filter.to_field(), raw: (columns.to_vec(), filter.clone()) }
    }
    pub fn at(&self, lv: &[F], nv: &[F]) -> (Vec<F>, F) { (self.columns.iter().map(|c| value(c, lv, nv)).collect(), value(&self.filter, lv, nv)) }
    /// The running sum of the real prover.
    pub fn real_sum(&self, cols: &[PolynomialValues<F>], beta: F, gamma: F) -> F {
        *crate::cross_table_lookup::partial_sums(cols, &self.raw.0, &self.raw.1, GrandProductChallenge { beta, gamma }).values.last().unwrap()
    }
}
pub fn value(c: &ColumnSparse<F>, lv: &[F], nv: &[F]) -> F {
    let mut v = c.constant;
    for (i, k) in &c.lv_linear_combination { v += lv[*i] * *k; }
    for (i, k) in &c.nv_linear_combination { v += nv[*i] * *k; }
    v
}

/// Something a verifier forgets to check (only used to see whether the search would notice).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Blind { Constraint(usize, usize), Lookup(usize), Side(usize, usize) }

pub struct System {
    pub blind: Option<Blind>,
    pub stark: MozakStark<F, D>,
    pub lookups: Vec<Vec<Side>>,
    pub public: Vec<(Side, usize)>,
    pub names: Vec<String>,
    pub degrees: Vec<usize>,
    codes: Vec<Code>,
}
impl Default for System {
    fn default() -> Self {
        let stark = MozakStark::<F, D>::default();
        let lookups = stark.cross_table_lookups.iter().map(|l| l.looking_tables.iter().map(|t| Side::new(t.kind, &t.columns, &t.filter_column)).collect()).collect();
        let public = stark.public_sub_tables.iter().map(|PublicSubTable { table: t, num_rows }| (Side::new(t.kind, &t.columns, &t.filter_column), *num_rows)).collect();
        let names = all_kind!(|kind| format!("{kind:?}")).0.to_vec();
        let degrees = all_starks!(&stark, |s, _kind| Stark::<F, D>::constraint_degree(s)).0.to_vec();
        let codes = all_starks!(&stark, |s, _kind| code(s)).0.into_iter().collect();
        Self { blind: None, stark, lookups, public, names, degrees, codes }
    }
}

fn one<S: Stark<F, D>>(s: &S, lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F]) -> Vec<F> {
    let mut c = ConstraintConsumer::new_debug_api(first, last);
    let vars = StarkEvaluationFrame::from_values(lv, nv, if S::PUBLIC_INPUTS == 0 { &[] } else { pis });
    s.eval_packed_generic(&vars, &mut c);
    c.sim_values
}

fn columns<S: Stark<F, D>>(_: &S) -> usize { S::COLUMNS }
fn above<S: Stark<F, D>>(s: &S, declared: usize, random: &mut dyn FnMut() -> u64) -> Vec<(usize, usize)> {
    let mut f = || F::from_noncanonical_u64(random());
    let n = columns(s);
    let line: Vec<(F, F)> = (0..2 * n + 2 + S::PUBLIC_INPUTS).map(|_| (f(), f())).collect();
    let z = f();
    // Values at 0..=declared + 4; differencing as often as the degree allows leaves zero.
    let mut at: Vec<Vec<F>> = (0..declared as u64 + 5).map(|t| {
        let v: Vec<F> = line.iter().map(|(a, b)| *a + *b * F::from_canonical_u64(t)).collect();
        let mut c = ConstraintConsumer::new(vec![], z, v[2 * n], v[2 * n + 1]);
        let p: Vec<F> = line[2 * n + 2..].iter().map(|x| x.0).collect();
        s.eval_packed_generic(&StarkEvaluationFrame::from_values(&v[..n], &v[n..2 * n], &p), &mut c);
        c.sim_values
    }).collect();
    for _ in 0..=declared {
        at = at.windows(2).map(|w| w[0].iter().zip(&w[1]).map(|(x, y)| *y - *x).collect()).collect();
    }
    (0..at[0].len()).filter(|i| at.iter().any(|v| v[*i] != F::ZERO)).map(|i| (i, declared)).collect()
}

/// A table's constraints as a straight-line program.
pub struct Code {
    width: usize,
    pis: usize,
    nodes: Vec<Node>,
    out: Vec<u32>,
    /// What each constraint is computed from.
    part: Vec<Vec<u32>>,
    /// The cells each constraint depends on: the row's, then the next row's.
    pub cells: Vec<Vec<usize>>,
}
fn code<S: Stark<F, D>>(s: &S) -> Code {
    let (n, p) = (columns(s), S::PUBLIC_INPUTS);
    sym::begin();
    let at = |i: usize| sym::input(i as u32);
    let mut c = ConstraintConsumer::<Sym>::new(vec![], at(2 * n), at(2 * n + 1), at(2 * n + 2));
    let lv: Vec<Sym> = (0..n).map(at).collect();
    let nv: Vec<Sym> = (n..2 * n).map(at).collect();
    // Public inputs are known to the verifier: only the program counter at the start is one.
    let pis: Vec<F> = vec![F::from_canonical_u64(PUBLIC); p];
    s.eval_packed_generic::<F, Sym, 1>(&StarkEvaluationFrame::from_values(&lv, &nv, &pis), &mut c);
    let all: Vec<u32> = c.sim_values.iter().map(|x| x.0).collect();
    let old = sym::end();
    let reach = |from: &[u32]| {
        let mut seen = vec![false; old.len()];
        for o in from { seen[*o as usize] = true; }
        for i in (0..old.len()).rev() {
            if let (true, Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b)) = (seen[i], old[i]) { seen[a as usize] = true; seen[b as usize] = true; }
        }
        seen
    };
    let live = reach(&all);
    let mut new = vec![0; old.len()];
    let mut nodes = vec![];
    for i in (0..old.len()).filter(|i| live[*i]) {
        new[i] = nodes.len() as u32;
        let m = |x: u32| new[x as usize];
        nodes.push(match old[i] {
            Node::Const(PUBLIC) if p > 0 => Node::Input(2 * n as u32 + 3),
            Node::Add(a, b) => Node::Add(m(a), m(b)),
            Node::Sub(a, b) => Node::Sub(m(a), m(b)),
            Node::Mul(a, b) => Node::Mul(m(a), m(b)),
            x => x,
        });
    }
    let out: Vec<u32> = all.iter().map(|o| new[*o as usize]).collect();
    let parts: Vec<Vec<bool>> = all.iter().map(|o| reach(&[*o])).collect();
    let part = parts.iter().map(|r| (0..old.len()).filter(|i| r[*i]).map(|i| new[i]).collect()).collect();
    let cells = parts.iter().map(|r| {
        let mut v: Vec<usize> = (0..old.len()).filter(|i| r[*i]).filter_map(|i| match old[i] { Node::Input(k) if (k as usize) < 2 * n => Some(k as usize), _ => None }).collect();
        v.sort_unstable();
        v
    }).collect();
    Code { width: n, pis: p, nodes, out, part, cells }
}
/// Stands for a public input while constraints are written down.
const PUBLIC: u64 = 0x5ea1_0000_9876_4321;
impl Code {
    fn value(&self, i: usize, lv: &[F], nv: &[F], at: (bool, bool), pis: &[F], v: &[F]) -> F {
        match self.nodes[i] {
            Node::Const(c) => F::from_canonical_u64(c),
            Node::Add(a, b) => v[a as usize] + v[b as usize],
            Node::Sub(a, b) => v[a as usize] - v[b as usize],
            Node::Mul(a, b) => v[a as usize] * v[b as usize],
            Node::Input(k) => {
                let (k, w) = (k as usize, self.width);
                if k < w { lv[k] } else if k < 2 * w { nv[k - w] } else if k == 2 * w { F::from_bool(!at.1) } else if k == 2 * w + 1 { F::from_bool(at.0) } else if k == 2 * w + 2 { F::from_bool(at.1) } else { pis[0] }
            }
        }
    }
}
thread_local!(static SCRATCH: std::cell::RefCell<Vec<F>> = const { std::cell::RefCell::new(vec![]) });

impl System {
    /// Calls back with every constraint that does not hold.
    pub fn broken(&self, table: usize, lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F], mut f: impl FnMut(usize, F)) {
        let c = &self.codes[table];
        SCRATCH.with(|v| {
            let v = &mut *v.borrow_mut();
            if v.len() < c.nodes.len() { v.resize(c.nodes.len(), F::ZERO); }
            for i in 0..c.nodes.len() { v[i] = c.value(i, lv, nv, (first, last), pis, v); }
            for (i, o) in c.out.iter().enumerate() {
                let x = v[*o as usize];
                if x != F::ZERO && self.blind != Some(Blind::Constraint(table, i)) { f(i, x); }
            }
        });
    }
    pub fn eval(&self, table: usize, lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F]) -> Vec<F> {
        let mut out = vec![F::ZERO; self.codes[table].out.len()];
        self.broken(table, lv, nv, first, last, pis, |i, x| out[i] = x);
        out
    }
    /// One constraint's value.
    pub fn single(&self, table: usize, index: usize, lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F]) -> F {
        if self.blind == Some(Blind::Constraint(table, index)) { return F::ZERO; }
        let c = &self.codes[table];
        SCRATCH.with(|v| {
            let v = &mut *v.borrow_mut();
            if v.len() < c.nodes.len() { v.resize(c.nodes.len(), F::ZERO); }
            for i in &c.part[index] { let i = *i as usize; v[i] = c.value(i, lv, nv, (first, last), pis, v); }
            v[c.out[index] as usize]
        })
    }
    /// The same by the real evaluation, without any shortcut.
    pub fn slow(&self, table: usize, lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F]) -> Vec<F> {
        let mut out = vec![];
        all_starks!(&self.stark, |s, kind| if kind as usize == table { out = one(s, lv, nv, first, last, pis); });
        out
    }
    /// Whether the programs say what the real evaluation says, on random rows.
    pub fn agrees(&self, mut random: impl FnMut() -> u64) -> Result<(), String> {
        for t in 0..self.names.len() {
            let w = self.codes[t].width;
            for i in 0..4 {
                let mut row = || (0..w).map(|_| { let x = random(); F::from_noncanonical_u64(if i == 0 { x % 3 } else { x }) }).collect::<Row>();
                let (lv, nv) = (row(), row());
                let p = [F::from_noncanonical_u64(random())];
                let (a, b) = (self.eval(t, &lv, &nv, i % 2 == 1, i / 2 == 1, &p), self.slow(t, &lv, &nv, i % 2 == 1, i / 2 == 1, &p));
                if a != b { return Err(format!("the written-down constraints of {} differ", self.names[t])); }
            }
        }
        Ok(())
    }
    pub fn cells(&self, table: usize) -> &[Vec<usize>] { &self.codes[table].cells }
    pub fn public_inputs(&self, table: usize) -> usize { self.codes[table].pis }
    /// Constraints of higher degree than the table declares, seen along a random line through the table's row space.
    pub fn above_degree(&self, table: usize, mut random: impl FnMut() -> u64) -> Vec<(usize, usize)> {
        let mut out = vec![];
        all_starks!(&self.stark, |s, kind| if kind as usize == table { out = above(s, self.degrees[table], &mut random); });
        out
    }
    pub fn kind(&self, name: &str) -> usize { self.names.iter().position(|n| n == name).unwrap_or_else(|| panic!("no table {name}")) }
}

pub fn columns_of(rows: &[Row]) -> Vec<PolynomialValues<F>> {
    (0..rows[0].len()).map(|c| PolynomialValues::new(rows.iter().map(|r| r[c]).collect())).collect()
}
pub fn rows_of(cols: &[PolynomialValues<F>]) -> Vec<Row> {
    (0..cols[0].values.len()).map(|r| cols.iter().map(|c| c.values[r]).collect()).collect()
}

/// The real tables of an execution.
pub fn traces(program: &Program, record: &ExecutionRecord<F>) -> Tables {
    let t: TableKindArray<Vec<PolynomialValues<F>>> = generate_traces::<F, D>(program, record, &mut TimingTree::default());
    t.0.iter().map(|c| rows_of(c)).collect()
}
pub fn zero() -> F { F::ZERO }
