//! A permutation's row with one cell changed and everything after it worked out anew.
use std::collections::BTreeSet;

use mozak_circuits::sim::{Row, System, F};
use plonky2::field::types::{Field, PrimeField64};
use simkit::Rng;

pub struct Spread {
    pub table: usize,
    pub inputs: Vec<usize>,
    pub outputs: Vec<usize>,
    /// Constraints in the order in which each settles one more cell.
    order: Vec<(usize, usize)>,
}
impl Spread {
    /// From a row that really permutes something.
    pub fn new(s: &System, row: &Row, rng: &mut Rng) -> Option<Self> {
        let table = s.kind("Poseidon2");
        let sponge = s.kind("Poseidon2Sponge");
        let side = s.lookups.iter().filter(|l| l.iter().any(|x| x.kind as usize == sponge)).flat_map(|l| l.iter()).find(|x| x.kind as usize == table)?;
        let at = |c: &mozak_circuits::linear_combination::ColumnSparse<F>| match c.lv_linear_combination[..] { [(i, _)] => Some(i), _ => None };
        let seen: Vec<usize> = side.columns.iter().map(at).collect::<Option<_>>()?;
        let (inputs, outputs) = (seen[..12].to_vec(), seen[12..].to_vec());
        let mut known: BTreeSet<usize> = inputs.iter().copied().chain([at(&side.filter)?]).collect();
        let n = row.len();
        // Cells a constraint says the value of, whatever the others are.
        let cells = s.cells(table);
        let mut random = || { let mut r: Row = (0..n).map(|_| F::from_noncanonical_u64(rng.u64())).collect(); for k in &known { r[*k] = row[*k]; } r };
        let (a, b) = (random(), random());
        let says: Vec<BTreeSet<usize>> = (0..cells.len()).map(|c| {
            cells[c].iter().copied().filter(|x| *x < n).filter(|x| {
                let v = |r: &Row, by: u64| { let mut r = r.clone(); r[*x] += F::from_canonical_u64(by); s.single(table, c, &r, &r, false, false, &[]) };
                let d = |r: &Row| (v(r, 1) - v(r, 0), v(r, 7) - v(r, 0));
                let ((p, q), (u, _)) = (d(&a), d(&b));
                p != F::ZERO && p == u && q == p * F::from_canonical_u64(7)
            }).collect()
        }).collect();
        let settle = |known: &mut BTreeSet<usize>, order: &mut Vec<(usize, usize)>| {
            let mut used: BTreeSet<usize> = order.iter().map(|x| x.0).collect();
            loop {
                let mut more = false;
                for c in 0..cells.len() {
                    if used.contains(&c) { continue; }
                    let mut un = cells[c].iter().copied().filter(|x| *x < n && !known.contains(x));
                    if let (Some(x), None) = (un.next(), un.next()) {
                        if says[c].contains(&x) { known.insert(x); order.push((c, x)); used.insert(c); more = true; }
                    }
                }
                if !more { return; }
            }
        };
        let mut order = vec![];
        settle(&mut known, &mut order);
        for _ in 0..40 {
            // Something nothing settles.
            let mut best: Option<(usize, usize)> = None;
            let near: BTreeSet<usize> = (0..cells.len()).filter_map(|c| { let un: Vec<usize> = cells[c].iter().copied().filter(|x| *x < n && !known.contains(x)).collect(); (un.len() == 2).then_some(un) }).flatten().collect();
            for x in near {
                let (mut k, mut o) = (known.clone(), order.clone());
                k.insert(x);
                settle(&mut k, &mut o);
                if best.map_or(true, |b| b.1 < o.len()) { best = Some((x, o.len())); }
            }
            let Some((x, _)) = best else { break };
            known.insert(x);
            settle(&mut known, &mut order);
        }
        Some(Spread { table, inputs, outputs, order })
    }
    /// The row with another value in the cell, if no constraint minds.
    pub fn changed(&self, s: &System, row: &Row, cell: usize, by: F) -> Option<Row> {
        let mut r = row.clone();
        r[cell] += by;
        for (c, x) in &self.order {
            if *x == cell { continue; }
            let v = s.single(self.table, *c, &r, &r, false, false, &[]);
            if v == F::ZERO { continue; }
            let was = r[*x];
            r[*x] += F::ONE;
            let slope = s.single(self.table, *c, &r, &r, false, false, &[]) - v;
            r[*x] = was;
            if slope == F::ZERO { return None; }
            r[*x] -= v * slope.inverse();
        }
        let mut ok = true;
        s.broken(self.table, &r, &r, false, false, &[], |_, _| ok = false);
        (ok && self.outputs.iter().any(|o| r[*o] != row[*o])).then_some(r)
    }
    pub fn key(&self, row: &Row) -> Vec<u64> { self.inputs.iter().map(|i| row[*i].to_canonical_u64()).collect() }
}
