//! A dishonest prover that keeps mending whatever a verifier would complain about.
use std::collections::{BTreeSet, HashMap, HashSet};

use mozak_circuits::sim::{value, Blind, Row, Side, System, Tables, F};
use plonky2::field::types::{Field, PrimeField64};
use simkit::Rng;

use crate::solver::{zeros, Knowledge};
use crate::verdict::Known;

pub type Place = (usize, usize, usize);
/// Something to change; also how it is changed back.
#[derive(Clone, Debug)]
pub enum Edit {
    Cells(Vec<(Place, F)>),
    /// A row before this one; the table's last row goes.
    Insert(usize, usize, Row),
    /// This row goes; the table gets a last row.
    Remove(usize, usize, Row),
    /// All rows.
    Table(usize, Vec<Row>),
}
use Edit::{Cells, Insert, Remove, Table};
type Tuple = (usize, Vec<u64>);

pub struct Walk<'a> {
    s: &'a System,
    k: &'a Knowledge,
    entry: F,
    pub t: Tables,
    /// The tables of the honest run, for ideas.
    ideas: &'a Tables,
    /// Whether the answer tables are left to be worked out at the end.
    virt: bool,
    /// table -> its sides in lookups
    sides: Vec<Vec<(usize, usize)>>,
    /// constraints that do not hold; those past the last are answers nobody could give
    bad: BTreeSet<Place>,
    held: HashMap<Tuple, (F, Vec<(u32, u32)>)>,
    off: BTreeSet<Tuple>,
    pub fixed: Vec<bool>,
    pub pinned: HashSet<Place>,
    tabu: HashMap<Place, u32>,
    memory: usize,
    register: usize,
    rng: Rng,
    now: u32,
    /// Everything done so far, to be undone from the end.
    pub done: Vec<Edit>,
}

/// Whether the answer tables hold an answer.
fn answerable(which: usize, v: &[F]) -> bool {
    let u: Vec<u64> = v.iter().map(F::to_canonical_u64).collect();
    match which {
        0 => u[0] >> 32 == 0,
        1 => u[0] < 256,
        2 => u.iter().all(|x| x >> 32 == 0) && u[0] ^ u[1] == u[2],
        _ => u[0] < 32 && u[1] == 1 << u[0],
    }
}
fn tuple(s: &Side, lv: &[F], nv: &[F]) -> Vec<u64> { s.columns.iter().map(|c| value(c, lv, nv).to_canonical_u64()).collect() }

impl<'a> Walk<'a> {
    pub fn new(s: &'a System, k: &'a Knowledge, known: &Known, t: Tables, ideas: &'a Tables, virt: bool, rng: Rng) -> Self {
        let n = t.len();
        let answers = [s.kind("RangeCheck"), s.kind("RangeCheckU8"), s.kind("Xor"), s.kind("Bitshift")];
        let mut sides = vec![vec![]; n];
        for (l, x) in s.lookups.iter().enumerate() {
            if s.blind == Some(Blind::Lookup(l)) { continue; }
            for (i, y) in x.iter().enumerate() { if s.blind != Some(Blind::Side(l, i)) { sides[y.kind as usize].push((l, i)); } }
        }
        for (j, (y, _)) in s.public.iter().enumerate() { sides[y.kind as usize].push((s.lookups.len() + j, 0)); }
        let fixed: Vec<bool> = (0..n).map(|i| ["Program", "ElfMemoryInit"].contains(&s.names[i].as_str()) || answers.contains(&i) == virt).collect();
        let mut w = Walk { s, k, entry: known.entry, t, ideas, virt, sides, bad: BTreeSet::new(), held: HashMap::new(), off: BTreeSet::new(), fixed, pinned: HashSet::new(), tabu: HashMap::new(), memory: s.kind("Memory"), register: s.kind("Register"), rng, now: 0, done: vec![] };
        for (j, bytes) in known.commitments.iter().enumerate() { for b in bytes { w.hold((s.lookups.len() + j, vec![u64::from(*b)]), -F::ONE, None); } }
        for i in 0..n { if !virt || !answers.contains(&i) { w.table(i, true); } }
        w
    }
    fn side(&self, l: usize, i: usize) -> &'a Side { if l < self.s.lookups.len() { &self.s.lookups[l][i] } else { &self.s.public[l - self.s.lookups.len()].0 } }
    fn table(&mut self, table: usize, add: bool) { for r in 0..self.t[table].len() { self.pair(table, r, add); } }
    fn hold(&mut self, x: Tuple, f: F, who: Option<(u32, u32, bool)>) {
        let e = self.held.entry(x.clone()).or_insert((F::ZERO, vec![]));
        let was = e.0 == F::ZERO;
        e.0 += f;
        if let Some((i, r, add)) = who {
            if add { e.1.push((i, r)); } else if let Some(p) = e.1.iter().position(|y| *y == (i, r)) { e.1.swap_remove(p); }
        }
        let is = e.0 == F::ZERO;
        if is && e.1.is_empty() { self.held.remove(&x); }
        if was && !is { self.off.insert(x); } else if !was && is { self.off.remove(&x); }
    }
    fn pair(&mut self, table: usize, r: usize, add: bool) {
        let (s, rows) = (self.s, &self.t[table]);
        let n = rows.len();
        let (lv, nv) = (&rows[r], &rows[(r + 1) % n]);
        if add {
            let bad = &mut self.bad;
            s.broken(table, lv, nv, r == 0, r + 1 == n, &[self.entry], |c, _| { bad.insert((table, r, c)); });
        } else {
            while let Some(x) = self.bad.range((table, r, 0)..(table, r + 1, 0)).next().copied() { self.bad.remove(&x); }
        }
        let mut hold = vec![];
        for (j, (l, i)) in self.sides[table].iter().enumerate() {
            let side = self.side(*l, *i);
            let f = value(&side.filter, lv, nv);
            if f == F::ZERO { continue; }
            if let (true, Some(w)) = (self.virt, self.k.places.answers.iter().position(|a| a == l)) {
                let v: Vec<F> = side.columns.iter().map(|c| value(c, lv, nv)).collect();
                if add && !answerable(w, &v) { self.bad.insert((table, r, 10_000 + j)); }
                continue;
            }
            hold.push(((*l, tuple(side, lv, nv)), if add { f } else { -f }, Some((*i as u32, r as u32, add))));
        }
        for (x, f, who) in hold { self.hold(x, f, who); }
    }
    pub fn score(&self) -> usize { self.bad.len() + self.off.len() }
    pub fn show(&self) {
        for (t, r, c) in self.bad.iter().take(14) { eprintln!("   bad {} row {r} constraint {c}", self.s.names[*t]); }
        for (l, x) in self.off.iter().take(14) { eprintln!("   off {} {x:?} by {:?}", if *l < self.s.lookups.len() { crate::verdict::look_name(self.s, *l) } else { "public".into() }, self.held[&(*l, x.clone())].0); }
    }
    /// Does something and tells how to undo it.
    fn set(&mut self, e: &Edit) -> Edit {
        match e {
            Cells(e) => {
                let mut pairs = BTreeSet::new();
                for ((t, r, _), _) in e { let n = self.t[*t].len(); pairs.insert((*t, *r)); pairs.insert((*t, (*r + n - 1) % n)); }
                for (t, r) in &pairs { self.pair(*t, *r, false); }
                let mut old: Vec<(Place, F)> = e.iter().map(|((t, r, c), v)| ((*t, *r, *c), std::mem::replace(&mut self.t[*t][*r][*c], *v))).collect();
                old.reverse();
                for (t, r) in &pairs { self.pair(*t, *r, true); }
                Cells(old)
            }
            Table(t, rows) => {
                self.table(*t, false);
                let old = std::mem::replace(&mut self.t[*t], rows.clone());
                self.table(*t, true);
                // Pinned rows stay so wherever they are now.
                let pins: Vec<Place> = self.pinned.iter().filter(|p| p.0 == *t).copied().collect();
                for p in &pins { self.pinned.remove(p); }
                for p in pins { if let Some(r) = self.t[*t].iter().position(|r| *r == old[p.1]) { self.pinned.insert((*t, r, p.2)); } }
                Table(*t, old)
            }
            Insert(t, r, row) => {
                self.table(*t, false);
                self.t[*t].insert(*r, row.clone());
                let last = self.t[*t].pop().unwrap();
                self.table(*t, true);
                self.shift(*t, *r, true);
                Remove(*t, *r, last)
            }
            Remove(t, r, last) => {
                self.table(*t, false);
                let row = self.t[*t].remove(*r);
                self.t[*t].push(last.clone());
                self.table(*t, true);
                self.shift(*t, *r, false);
                Insert(*t, *r, row)
            }
        }
    }
    /// A table of things that happen at addresses, with just the rows the other tables speak of.
    fn redone(&mut self, l: usize, table: usize, addr: usize) -> Option<Edit> {
        if self.fixed[table] { return None; }
        let all = &self.s.lookups[l];
        let side = all.iter().find(|x| x.kind as usize == table)?;
        let mut rows = self.t[table].clone();
        let n = rows.len();
        let said = |rows: &[Row], r: usize| -> Option<Vec<u64>> { let nv = &rows[(r + 1) % rows.len()]; (value(&side.filter, &rows[r], nv) != F::ZERO).then(|| tuple(side, &rows[r], nv)) };
        let off: Vec<(Vec<u64>, F)> = self.off.range((l, vec![])..(l + 1, vec![])).map(|x| (x.1.clone(), self.held[x].0)).collect();
        let cell = |j: usize| side.columns[j].lv_linear_combination.first().copied();
        let write = |row: &mut Row, j: usize, v: u64| -> Option<()> {
            let (i, k) = cell(j)?;
            let now = value(&side.columns[j], row, row);
            row[i] += (F::from_canonical_u64(v) - now) * k.inverse();
            Some(())
        };
        for (x, f) in &off {
            if *f == -F::ONE { if self.pinned.iter().any(|p| p.0 == table && said(&self.t[table], p.1).as_ref() == Some(x)) { return None; } let r = (0..rows.len()).find(|r| said(&rows, *r).as_ref() == Some(x))?; rows.remove(r); }
        }
        let blank = self.t[table].iter().enumerate().find(|(r, x)| value(&side.filter, x, &self.t[table][(r + 1) % n]) == F::ZERO && value(&side.columns[4.min(side.columns.len() - 1)], x, x) == F::ZERO).map(|x| x.1.clone());
        for (x, f) in &off {
            if *f != F::ONE { continue; }
            let template = self.t[table].iter().enumerate().filter_map(|(r, y)| said(&self.t[table], r).map(|z| (z, y))).max_by_key(|(z, _)| z.iter().zip(x).filter(|(a, b)| a == b).count())?;
            let mut row = template.1.clone();
            for (j, v) in x.iter().enumerate() { write(&mut row, j, *v)?; }
            let at = |y: &Row| (value(&side.columns[addr], y, y).to_canonical_u64(), value(&side.columns[0], y, y).to_canonical_u64());
            let mut i = rows.iter().position(|y| at(y) > (x[addr], x[0])).unwrap_or(rows.len());
            if i == 0 || at(&rows[i - 1]).0 != x[addr] {
                let mut b = blank.clone()?;
                write(&mut b, addr, x[addr])?;
                rows.insert(i, b);
                i += 1;
            }
            rows.insert(i, row);
        }
        while rows.len() > n { if said(&rows, rows.len() - 1).is_some() { return None; } rows.pop(); }
        while rows.len() < n { let x = rows.last()?.clone(); rows.push(x); }
        Some(Table(table, rows))
    }
    fn shift(&mut self, t: usize, r: usize, up: bool) {
        let moved: Vec<Place> = self.pinned.iter().filter(|p| p.0 == t && p.1 >= r).copied().collect();
        for p in &moved { self.pinned.remove(p); }
        for p in moved { if up { self.pinned.insert((t, p.1 + 1, p.2)); } else if p.1 > r { self.pinned.insert((t, p.1 - 1, p.2)); } }
    }
    pub fn roomy(&self, t: usize) -> bool { let l = self.t[t].len() - 1; !self.pinned.iter().any(|p| (p.0, p.1) == (t, l)) }
    pub fn apply(&mut self, e: &Edit) { let undo = self.set(e); self.done.push(undo); }
    /// Back to where the walk began.
    pub fn back(&mut self, seed: Rng) {
        while let Some(e) = self.done.pop() { self.set(&e); }
        self.pinned.clear();
        self.tabu.clear();
        self.now = 0;
        self.rng = seed;
    }
    pub fn swap(&mut self, t: usize, a: usize, b: usize) {
        let (x, y) = (self.t[t][a].clone(), self.t[t][b].clone());
        let mut e: Vec<(Place, F)> = y.into_iter().enumerate().map(|(c, v)| ((t, a, c), v)).collect();
        e.extend(x.into_iter().enumerate().map(|(c, v)| ((t, b, c), v)));
        if a != b { self.apply(&Cells(e)); }
    }
    pub fn remove(&mut self, t: usize, r: usize) { let last = self.t[t].last().unwrap().clone(); self.apply(&Remove(t, r, last)); }
    fn may(&self, p: &Place) -> bool { !self.fixed[p.0] && !self.pinned.contains(p) && self.tabu.get(p).map_or(true, |x| *x < self.now) }

    /// Edits that make a column of a side worth this much.
    fn make(&mut self, side: &Side, col: Option<usize>, r: usize, target: F) -> Option<(Place, F)> {
        let t = side.kind as usize;
        let n = self.t[t].len();
        let c = match col { Some(j) => &side.columns[j], None => &side.filter };
        let now = value(c, &self.t[t][r], &self.t[t][(r + 1) % n]);
        let mut cells: Vec<(Place, F)> = c.lv_linear_combination.iter().map(|(i, k)| ((t, r, *i), *k)).chain(c.nv_linear_combination.iter().map(|(i, k)| ((t, (r + 1) % n, *i), *k))).collect();
        cells.retain(|(p, k)| *k != F::ZERO && self.may(p));
        if cells.is_empty() { return None; }
        let (p, k) = cells[self.rng.usize(cells.len())];
        Some((p, self.t[t][p.1][p.2] + (target - now) * k.inverse()))
    }
    /// Edits that turn a side's tuple into another.
    fn retarget(&mut self, side: &Side, r: usize, to: &[u64]) -> Option<Vec<(Place, F)>> {
        let t = side.kind as usize;
        let n = self.t[t].len();
        let mut e = vec![];
        for (j, want) in to.iter().enumerate() {
            let now = value(&side.columns[j], &self.t[t][r], &self.t[t][(r + 1) % n]);
            if now.to_canonical_u64() != *want {
                let x = self.make(side, Some(j), r, F::from_canonical_u64(*want))?;
                if e.iter().any(|y: &(Place, F)| y.0 == x.0) { return None; }
                e.push(x);
            }
        }
        Some(e)
    }
    fn constraint(&mut self, (t, r, c): Place, out: &mut Vec<Edit>) {
        let n = self.t[t].len();
        let w = self.t[t][0].len();
        let mut cells: Vec<Place> = self.k.cells[t][c].iter().map(|i| if *i < w { (t, r, *i) } else { (t, (r + 1) % n, *i - w) }).filter(|p| self.may(p)).collect();
        self.rng.shuffle(&mut cells);
        cells.truncate(10);
        for p in cells {
            let (mut lv, mut nv) = (self.t[t][r].clone(), self.t[t][(r + 1) % n].clone());
            let mut values = vec![];
            for x in 0..5 {
                if p.1 == r { lv[p.2] = F::from_canonical_u64(x); }
                if p.1 == (r + 1) % n { nv[p.2] = F::from_canonical_u64(x); }
                values.push(self.s.single(t, c, &lv, &nv, r == 0, r + 1 == n, &[self.entry]));
            }
            for x in zeros(&values, &mut self.rng) { out.push(Cells(vec![(p, x)])); }
            if let Some(x) = self.ideas[t].get(p.1) { if x[p.2] != self.t[t][p.1][p.2] { out.push(Cells(vec![(p, x[p.2])])); } }
        }
    }
    fn request(&mut self, (t, r, j): Place, out: &mut Vec<Edit>) {
        let (l, i) = self.sides[t][j - 10_000];
        let side = self.side(l, i);
        let n = self.t[t].len();
        let (v, _) = side.at(&self.t[t][r], &self.t[t][(r + 1) % n]);
        let u: Vec<u64> = v.iter().map(F::to_canonical_u64).collect();
        let which = self.k.places.answers.iter().position(|a| *a == l).unwrap();
        let x = self.rng.u32();
        let mut targets: Vec<(usize, u64)> = match which {
            0 => vec![(0, u[0] & 0xffff_ffff), (0, 0), (0, u64::from(x)), (0, 1)],
            1 => vec![(0, u[0] & 255), (0, u64::from(x & 255))],
            2 => vec![(0, u[1] ^ u[2]), (1, u[0] ^ u[2]), (2, u[0] ^ u[1])],
            _ => vec![(0, u64::from(u[1].trailing_zeros() % 32)), (1, 1 << (u[0] % 32))],
        };
        if let Some(h) = self.ideas[t].get(r) {
            let (v, f) = side.at(h, &self.ideas[t][(r + 1) % self.ideas[t].len()]);
            if f != F::ZERO { for (j, v) in v.iter().enumerate() { targets.push((j, v.to_canonical_u64())); } }
        }
        for (j, x) in targets { if u[j] != x { if let Some(e) = self.make(side, Some(j), r, F::from_noncanonical_u64(x)) { out.push(Cells(vec![e])); } } }
        if let Some(e) = self.make(side, None, r, F::ZERO) { out.push(Cells(vec![e])); }
    }
    fn lookup(&mut self, x: &Tuple, out: &mut Vec<Edit>) {
        let (f, who) = self.held[x].clone();
        let l = x.0;
        let others: Vec<Vec<u64>> = self.off.range((l, vec![])..(l + 1, vec![])).map(|y| y.1.clone()).filter(|y| *y != x.1).take(30).collect();
        let mut who = who;
        self.rng.shuffle(&mut who);
        for (i, r) in who.iter().take(3) {
            let side = self.side(l, *i as usize);
            let (t, r) = (side.kind as usize, *r as usize);
            let n = self.t[t].len();
            // Say it another number of times.
            let g = value(&side.filter, &self.t[t][r], &self.t[t][(r + 1) % n]);
            if let Some(e) = self.make(side, None, r, g - f) { out.push(Cells(vec![e])); }
            // Say something else that somebody wants to hear.
            let mut near: Vec<&Vec<u64>> = others.iter().filter(|y| self.held[&(l, (*y).clone())].0 == -f).collect();
            near.sort_by_key(|y| y.iter().zip(&x.1).filter(|(a, b)| a != b).count());
            near.truncate(4);
            let near: Vec<Vec<u64>> = near.into_iter().cloned().collect();
            for y in near { if let Some(e) = self.retarget(side, r, &y) { out.push(Cells(e)); } }
            // Not say it at all.
            if !self.fixed[t] && self.rng.below(6) == 0 { let last = self.t[t][n - 1].clone(); out.push(Remove(t, r, last)); }
            // What the honest run says there.
            if let Some(h) = self.ideas[t].get(r) {
                let h = tuple(side, h, &self.ideas[t][(r + 1) % self.ideas[t].len()]);
                if h != x.1 { if let Some(e) = self.retarget(side, r, &h) { out.push(Cells(e)); } }
            }
            // Keep out of the way of one column.
            let j = self.rng.usize(x.1.len());
            if let Some(o) = others.first() { if o[j] != x.1[j] { if let Some(e) = self.make(side, Some(j), r, F::from_canonical_u64(o[j])) { out.push(Cells(vec![e])); } } }
        }
        if self.rng.below(3) == 0 {
            for (m, table, addr) in [(self.k.places.memory, self.memory, 3), (self.k.places.registers, self.register, 2)] {
                if m == l { if let Some(e) = self.redone(l, table, addr) { out.push(e); } }
            }
        }
        // Let somebody idle say it.
        let sides = if l < self.s.lookups.len() { self.s.lookups[l].len() } else { 1 };
        for _ in 0..2 {
            let i = self.rng.usize(sides);
            let side = self.side(l, i);
            let t = side.kind as usize;
            if self.fixed[t] { continue; }
            let n = self.t[t].len();
            let start = self.rng.usize(n);
            // In a row of its own, next to one much like it.
            if self.rng.below(8) == 0 {
                let mut near: Vec<(usize, usize)> = vec![];
                for r in 0..n {
                    if value(&side.filter, &self.t[t][r], &self.t[t][(r + 1) % n]) == F::ZERO { continue; }
                    near.push((tuple(side, &self.t[t][r], &self.t[t][(r + 1) % n]).iter().zip(&x.1).filter(|(a, b)| a != b).count(), r));
                }
                near.sort_unstable();
                if let Some((_, r)) = near.first().copied() {
                    if let Some(e) = self.retarget(side, r, &x.1) {
                        let mut row = self.t[t][r].clone();
                        for (p, v) in e { if p.1 == r { row[p.2] = v; } }
                        out.push(Insert(t, r + self.rng.usize(2), row));
                    }
                }
            }
            let idle = (0..n).map(|i| (start + i) % n).find(|r| value(&side.filter, &self.t[t][*r], &self.t[t][(r + 1) % n]) == F::ZERO);
            let r = match idle { Some(r) => r, None => start };
            let g = value(&side.filter, &self.t[t][r], &self.t[t][(r + 1) % n]);
            let Some(mut e) = self.retarget(side, r, &x.1) else { continue };
            if let Some(y) = self.make(side, None, r, if idle.is_some() { -f } else { g }) { if !e.iter().any(|z| z.0 == y.0) { e.push(y); } }
            out.push(Cells(e));
        }
    }
    /// Walks until nothing is wrong; true if it got there.
    pub fn go(&mut self, steps: u32, ceiling: usize, show: bool) -> bool {
        let (mut least, mut since) = (usize::MAX, 0);
        for _ in 0..steps {
            let score = self.score();
            since += 1;
            if score < least { least = score; since = 0; }
            if since > 35 { return false; }
            if score == 0 { return true; }
            if score > ceiling { return false; }
            self.now += 1;
            let pick = self.rng.usize(score);
            let mut edits: Vec<Edit> = vec![];
            if pick < self.bad.len() {
                let x = *self.bad.iter().nth(pick).unwrap();
                if x.2 >= 10_000 { self.request(x, &mut edits); } else { self.constraint(x, &mut edits); }
            } else {
                let x = self.off.iter().nth(pick - self.bad.len()).unwrap().clone();
                self.lookup(&x, &mut edits);
            }
            edits.retain(|e| match e { Cells(e) => !e.is_empty() && e.iter().all(|(p, v)| self.may(p) && self.t[p.0][p.1][p.2] != *v), Insert(t, r, _) => *r < self.t[*t].len() && self.roomy(*t), Table(..) => true, Remove(t, r, _) => !self.pinned.iter().any(|p| (p.0, p.1) == (*t, *r)) });
            if edits.is_empty() { continue; }
            self.rng.shuffle(&mut edits);
            edits.truncate(16);
            let best = if self.rng.below(12) == 0 { 0 } else {
                let mut best = (usize::MAX, 0);
                for (i, e) in edits.iter().enumerate() {
                    let undo = self.set(e);
                    best = best.min((self.score(), i));
                    self.set(&undo);
                }
                best.1
            };
            let e = edits.swap_remove(best);
            let rest = self.now + 4 + self.rng.below(8) as u32;
            if let Cells(e) = &e { for (p, _) in e { self.tabu.insert(*p, rest); } }
            self.apply(&e);
            if show { match &e { Cells(e) => eprintln!("  {} -> {}: {:?}", score, self.score(), e.iter().map(|(p, v)| (&self.s.names[p.0], p.1, p.2, *v)).collect::<Vec<_>>()), Insert(t, r, _) => eprintln!("  {score} -> {}: {} row {r} comes", self.score(), self.s.names[*t]), Remove(t, r, _) => eprintln!("  {score} -> {}: {} row {r} goes", self.score(), self.s.names[*t]), Table(t, _) => eprintln!("  {score} -> {}: {} redone", self.score(), self.s.names[*t]) } }
        }
        self.score() == 0
    }
    /// Rows something is wrong with.
    pub fn troubled(&self) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = self.bad.iter().map(|x| (x.0, x.1)).collect();
        for x in &self.off { for (i, r) in &self.held[x].1 { v.push((self.side(x.0, *i as usize).kind as usize, *r as usize)); } }
        v.sort_unstable();
        v.dedup();
        v
    }
    /// Whether all that is wrong is answers nobody could give.
    pub fn only_answers(&self) -> bool { self.off.is_empty() && self.bad.iter().all(|x| x.2 >= 10_000) }
}
