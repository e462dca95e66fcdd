//! A dishonest prover's means: fills in cells nobody else looks at, and recomputes the answer tables.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

use mozak_circuits::bitshift::columns::{Bitshift, BitshiftView};
use mozak_circuits::rangecheck::columns::RangeCheckColumnsView;
use mozak_circuits::sim::{Blind, Row, Side, System, Tables, F};
use mozak_circuits::xor::columns::{XorColumnsView, XorView};
use plonky2::field::types::{Field, Field64, PrimeField64};
use simkit::Rng;

use crate::story::Places;
use crate::verdict::tuples;

/// What is worth knowing about the system before an attack.
pub struct Knowledge {
    pub places: Places,
    /// table -> cells no other table sees (range checks and the like aside)
    pub free: Vec<Vec<bool>>,
    /// table -> constraint -> cells it depends on (the next row's after the row's)
    pub cells: Vec<Vec<Vec<usize>>>,
    pub u8_kind: usize,
    pub rc_kind: usize,
    /// range-checked expressions: (table, lookup, side)
    pub checked: Vec<(usize, usize, usize)>,
}
impl Knowledge {
    pub fn new(s: &System, widths: &[usize]) -> Self {
        let places = Places::new(s);
        let mut free: Vec<Vec<bool>> = widths.iter().map(|w| vec![true; *w]).collect();
        for (l, sides) in s.lookups.iter().enumerate() {
            let answer = places.answers.contains(&l);
            for side in sides {
                let f = &mut free[side.kind as usize];
                for (i, _) in side.filter.lv_linear_combination.iter().chain(&side.filter.nv_linear_combination) { f[*i] = false; }
                if answer { continue; }
                for c in &side.columns { for (i, _) in c.lv_linear_combination.iter().chain(&c.nv_linear_combination) { f[*i] = false; } }
            }
        }
        for (side, _) in &s.public {
            let f = &mut free[side.kind as usize];
            for c in side.columns.iter().chain([&side.filter]) { for (i, _) in c.lv_linear_combination.iter().chain(&c.nv_linear_combination) { f[*i] = false; } }
        }
        for n in ["Program", "ElfMemoryInit", "ProgramMult", "RangeCheckU8"] { free[s.kind(n)].iter_mut().for_each(|x| *x = false); }
        let cells = (0..widths.len()).map(|t| s.cells(t).to_vec()).collect();
        let (u8_kind, rc_kind) = (s.kind("RangeCheckU8"), s.kind("RangeCheck"));
        let checked = s.lookups[places.answers[0]].iter().enumerate().filter(|(_, x)| x.kind as usize != rc_kind).map(|(i, x)| (x.kind as usize, places.answers[0], i)).collect();
        Knowledge { places, free, cells, u8_kind, rc_kind, checked }
    }
}

// ---- polynomials over the field, constant term first

fn trim(p: &mut Vec<F>) { while p.last() == Some(&F::ZERO) { p.pop(); } }
fn rem(a: &[F], m: &[F]) -> Vec<F> {
    let mut a = a.to_vec();
    trim(&mut a);
    let inv = m.last().unwrap().inverse();
    while a.len() >= m.len() {
        let k = *a.last().unwrap() * inv;
        let o = a.len() - m.len();
        for (i, c) in m.iter().enumerate() { a[o + i] -= k * *c; }
        trim(&mut a);
    }
    a
}
fn mulmod(a: &[F], b: &[F], m: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut o = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() { o[i + j] += *x * *y; } }
    rem(&o, m)
}
fn powmod(b: &[F], mut e: u64, m: &[F]) -> Vec<F> {
    let (mut r, mut b) = (rem(&[F::ONE], m), rem(b, m));
    while e > 0 {
        if e & 1 == 1 { r = mulmod(&r, &b, m); }
        b = mulmod(&b, &b, m);
        e >>= 1;
    }
    r
}
fn gcd(a: &[F], b: &[F]) -> Vec<F> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() { let r = rem(&a, &b); a = b; b = r; }
    a
}
fn split(p: Vec<F>, r: &mut Rng, out: &mut Vec<F>) {
    match p.len() {
        0 | 1 => {}
        2 => out.push(-p[0] * p[1].inverse()),
        _ => {
            for _ in 0..20 {
                let mut h = powmod(&[F::from_noncanonical_u64(r.u64()), F::ONE], (F::ORDER - 1) / 2, &p);
                if h.is_empty() { h = vec![F::ZERO]; }
                h[0] -= F::ONE;
                let g = gcd(&p, &h);
                if g.len() > 1 && g.len() < p.len() {
                    let mut q = p.clone();
                    let mut quotient = vec![];
                    let inv = g.last().unwrap().inverse();
                    while q.len() >= g.len() {
                        let k = *q.last().unwrap() * inv;
                        quotient.push(k);
                        let o = q.len() - g.len();
                        for (i, c) in g.iter().enumerate() { q[o + i] -= k * *c; }
                        q.pop();
                    }
                    quotient.reverse();
                    split(g, r, out);
                    split(quotient, r, out);
                    return;
                }
            }
        }
    }
}
/// The zeros of the polynomial through these values at 0, 1, 2, ...
pub fn zeros(values: &[F], r: &mut Rng) -> Vec<F> {
    // Newton form, then expanded.
    let n = values.len();
    let mut d = values.to_vec();
    for k in 1..n { for i in (k..n).rev() { d[i] = (d[i] - d[i - 1]) * F::from_canonical_usize(k).inverse(); } }
    let mut p: Vec<F> = vec![];
    for k in (0..n).rev() {
        let mut q = vec![F::ZERO; p.len() + 1];
        for (i, c) in p.iter().enumerate() { q[i + 1] += *c; q[i] -= *c * F::from_canonical_usize(k); }
        q[0] += d[k];
        trim(&mut q);
        p = q;
    }
    if p.len() < 2 { return vec![]; }
    let mut out = vec![];
    if p.len() == 2 { split(p, r, &mut out); return out; }
    let mut x = powmod(&[F::ZERO, F::ONE], F::ORDER, &p);
    x.resize(x.len().max(2), F::ZERO);
    x[1] -= F::ONE;
    let g = gcd(&p, &x);
    split(g, r, &mut out);
    out
}

// ---- local repair

pub struct Search<'a> {
    pub s: &'a System,
    pub k: &'a Knowledge,
    pub entry: F,
    pub rng: Rng,
    pub budget: Cell<u32>,
}
type Spot = (usize, usize);

impl Search<'_> {
    fn pair(&self, t: &Tables, (table, i): Spot) -> Vec<F> {
        let r = &t[table];
        let n = r.len();
        self.s.eval(table, &r[i], &r[(i + 1) % n], i == 0, i + 1 == n, &[self.entry])
    }
    fn single(&self, t: &Tables, (table, i): Spot, c: usize) -> F {
        let r = &t[table];
        let n = r.len();
        self.s.single(table, c, &r[i], &r[(i + 1) % n], i == 0, i + 1 == n, &[self.entry])
    }
    fn unchecked(&self, t: &Tables, spots: &BTreeSet<Spot>) -> usize {
        let mut bad = 0;
        for &(table, l, i) in &self.k.checked {
            if self.s.blind == Some(Blind::Lookup(l)) || self.s.blind == Some(Blind::Side(l, i)) { continue; }
            for &(tt, row) in spots {
                if tt != table { continue; }
                let r = &t[table];
                let (v, f) = self.s.lookups[l][i].at(&r[row], &r[(row + 1) % r.len()]);
                if f != F::ZERO && v[0].to_canonical_u64() >> 32 != 0 { bad += 1; }
            }
        }
        bad
    }
    /// Calls `leaf` with every way found to satisfy the constraints at the spots; stops when it says so.
    pub fn dfs(&mut self, t: &mut Tables, spots: &BTreeSet<Spot>, set: &mut BTreeMap<(usize, usize, usize), F>, depth: usize, leaf: &mut dyn FnMut(&mut Tables, usize) -> bool) -> bool {
        if self.budget.get() == 0 { return false; }
        self.budget.set(self.budget.get() - 1);
        let mut worst: Option<(Spot, usize, Vec<(usize, usize, usize)>)> = None;
        for sp in spots {
            let v = self.pair(t, *sp);
            for (c, x) in v.iter().enumerate() {
                if *x == F::ZERO { continue; }
                let (table, row) = *sp;
                let n = t[table].len();
                let w = t[table][0].len();
                let cells: Vec<(usize, usize, usize)> = self.k.cells[table][c].iter()
                    .map(|i| if *i < w { (table, row, *i) } else { (table, (row + 1) % n, *i - w) })
                    .filter(|x| self.k.free[table][x.2] && !set.contains_key(x)).collect();
                if cells.is_empty() { return false; }
                if worst.as_ref().map_or(true, |w| cells.len() < w.2.len()) { worst = Some((*sp, c, cells)); }
            }
        }
        let Some((sp, c, mut cells)) = worst else { let bad = self.unchecked(t, spots); return leaf(t, bad); };
        if depth == 0 { return false; }
        self.rng.shuffle(&mut cells);
        let n = t[sp.0].len();
        for (table, row, col) in cells {
            let old = t[table][row][col];
            let mut values = vec![];
            for x in 0..5 {
                t[table][row][col] = F::from_canonical_u64(x);
                values.push(self.single(t, sp, c));
            }
            let roots = zeros(&values, &mut self.rng);
            for x in roots {
                t[table][row][col] = x;
                set.insert((table, row, col), x);
                let mut more = spots.clone();
                more.insert((table, row));
                more.insert((table, (row + n - 1) % n));
                if self.dfs(t, &more, set, depth - 1, leaf) { return true; }
                set.remove(&(table, row, col));
            }
            t[table][row][col] = old;
            if self.budget.get() == 0 { return false; }
        }
        false
    }
}

// ---- answers

fn wanted(s: &System, l: usize, t: &Tables, looked: usize) -> Vec<(Vec<u64>, F)> {
    let mut m: HashMap<Vec<u64>, F> = HashMap::new();
    if s.blind == Some(Blind::Lookup(l)) { return vec![]; }
    for (i, side) in s.lookups[l].iter().enumerate() {
        if side.kind as usize == looked || s.blind == Some(Blind::Side(l, i)) { continue; }
        tuples(&t[side.kind as usize], side, &mut m);
    }
    let mut v: Vec<_> = m.into_iter().filter(|x| x.1 != F::ZERO).collect();
    v.sort_unstable_by(|a, b| a.0.cmp(&b.0));
    v
}
fn padded(mut v: Vec<Row>, width: usize) -> Vec<Row> {
    let n = v.len().next_power_of_two().max(8);
    v.resize(n, vec![F::ZERO; width]);
    v
}
fn broken(s: &System, kind: usize, t: &[Row]) -> usize {
    let n = t.len();
    (0..n).map(|i| s.eval(kind, &t[i], &t[(i + 1) % n], i == 0, i + 1 == n, &[F::ZERO]).iter().filter(|x| **x != F::ZERO).count()).sum()
}
/// Tables of powers of two that hold these pairs, each row in its place if it may.
fn shifts(w: &[(Vec<u64>, F)]) -> Vec<Vec<Row>> {
    let f = F::from_noncanonical_u64;
    let honest: Vec<(u64, F)> = (0..32).map(|i| (i, f(1 << i))).collect();
    let odd: Vec<(usize, F)> = w.iter().filter(|x| x.0[0] < 32 && x.0[1] != 1 << x.0[0]).map(|x| (x.0[0] as usize, f(x.0[1]))).collect();
    let mut layouts = vec![honest.clone()];
    if !odd.is_empty() {
        // In place of the right row, and after it.
        let (mut over, mut after) = (honest.clone(), vec![]);
        for (n, m) in &odd { over[*n].1 = *m; }
        for h in &honest {
            after.push(*h);
            for (n, m) in &odd { if *n as u64 == h.0 { after.push((h.0, *m)); after.push(*h); } }
        }
        layouts.extend([over, after]);
        // Where the row follows from another than the one before.
        let (n, m) = odd[0];
        if let Some(j) = (0..32).find(|j| *j + 1 != n && f(1 << j) * (F::ONE + f(n as u64) - f(*j as u64)) == m) {
            let mut jump = honest[..=j].to_vec();
            let mut m = m;
            for i in n..32 { jump.push((i as u64, m)); m = m + m; }
            layouts.push(jump);
            let mut last = honest.clone();
            last.push((n as u64, m));
            layouts.push(last);
        }
    }
    layouts.into_iter().map(|mut l| {
        let last = *l.last().unwrap();
        let n = l.len().next_power_of_two();
        l.resize(n, last);
        let mut asked: Vec<F> = vec![F::ZERO; n];
        for (v, m) in w { if let Some(i) = l.iter().position(|x| f(x.0) == f(v[0]) && x.1 == f(v[1])) { asked[i] += *m; } }
        l.into_iter().zip(asked).map(|((amount, multiplier), multiplicity)| BitshiftView { executed: Bitshift { amount: f(amount), multiplier }, multiplicity }.into_iter().collect()).collect()
    }).collect()
}
fn bits(x: u64) -> [F; 32] { std::array::from_fn(|i| F::from_bool(x >> i & 1 == 1)) }

/// Recomputes the tables that only answer lookups.
pub fn answer(s: &System, k: &Knowledge, t: &mut Tables) {
    let f = F::from_noncanonical_u64;
    let (xor, shift) = (s.kind("Xor"), s.kind("Bitshift"));
    let w = wanted(s, k.places.answers[2], t, xor);
    let width = t[xor][0].len();
    t[xor] = padded(w.into_iter().flat_map(|(v, m)| {
        let one = XorColumnsView { is_execution_row: F::ONE, execution: XorView { a: f(v[0]), b: f(v[1]), out: f(v[2]) }, limbs: XorView { a: bits(v[0]), b: bits(v[1]), out: bits(v[2]) } };
        let row: Row = one.into_iter().collect();
        // A row for each asking one; anything stranger at once.
        let n = m.to_canonical_u64();
        if n < 1000 { vec![row; n as usize] } else { vec![XorColumnsView { is_execution_row: m, ..one }.into_iter().collect()] }
    }).collect(), width);
    let w = wanted(s, k.places.answers[3], t, shift);
    t[shift] = shifts(&w).into_iter().min_by_key(|t| broken(s, shift, t)).unwrap();
    let w = wanted(s, k.places.answers[0], t, k.rc_kind);
    let width = t[k.rc_kind][0].len();
    t[k.rc_kind] = padded(w.into_iter().map(|(v, m)| {
        let limbs = if v[0] >> 32 == 0 { (v[0] as u32).to_le_bytes().map(F::from_canonical_u8) } else { [f(v[0]), F::ZERO, F::ZERO, F::ZERO] };
        RangeCheckColumnsView { limbs, multiplicity: m }.into_iter().collect()
    }).collect(), width);
    let w: HashMap<u64, F> = wanted(s, k.places.answers[1], t, k.u8_kind).into_iter().map(|(v, m)| (v[0], m)).collect();
    t[k.u8_kind] = (0..256).map(|i| vec![f(i), w.get(&i).copied().unwrap_or(F::ZERO)]).collect();
}
pub fn looks(s: &Side) -> usize { s.kind as usize }
