//! C16: the authenticated state against a plain map.
use std::collections::{BTreeMap, BTreeSet};

use mozak_node::block_proposer::state::{Operation, State};
use mozak_node::block_proposer::Address;
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash as H;
use plonky2::plonk::config::Hasher;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};

use crate::kit::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum SOp {
    Upsert(u64, Obj),
    Read(u64),
    Delete(u64),
}
impl SOp {
    fn addr(&self) -> u64 { match *self { Self::Upsert(a, _) | Self::Read(a) | Self::Delete(a) => a } }
    fn real(&self) -> Operation { match *self { Self::Upsert(_, o) => Operation::Upsert(o.real()), Self::Read(_) => Operation::Read, Self::Delete(_) => Operation::Delete } }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block {
    pub ops: Vec<SOp>,
    /// Order in which the second replica applies them.
    pub order: u64,
    /// The second replica is lost and rebuilt from contents before this block.
    pub restart: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub depth: usize,
    /// Circuits for deeper trees than needed.
    pub spare: bool,
    pub blocks: Vec<Block>,
}

/// Sparse Merkle tree with `depth + 1` levels of branches.
pub struct Model {
    pub depth: usize,
    pub map: BTreeMap<u64, Obj>,
    empty: Vec<HashOut<F>>,
}
impl Model {
    pub fn new(depth: usize) -> Self {
        let mut empty = vec![Obj::NONE.hash()];
        for i in 0..=depth { empty.push(H::two_to_one(empty[i], empty[i])); }
        Self { depth, map: BTreeMap::new(), empty }
    }
    pub fn empty_leaf(&self) -> HashOut<F> { self.empty[0] }
    pub fn root_of(&self, map: &BTreeMap<u64, Obj>) -> HashOut<F> {
        let v: Vec<(u64, HashOut<F>)> = map.iter().map(|(a, o)| (*a, o.hash())).collect();
        self.sub(&v, self.depth + 1)
    }
    fn sub(&self, v: &[(u64, HashOut<F>)], level: usize) -> HashOut<F> {
        if v.is_empty() { return self.empty[level]; }
        if level == 0 { return v[0].1; }
        let cut = v.partition_point(|x| x.0 >> (level - 1) & 1 == 0);
        H::two_to_one(self.sub(&v[..cut], level - 1), self.sub(&v[cut..], level - 1))
    }
    pub fn root(&self) -> HashOut<F> { self.root_of(&self.map) }
}

/// What a block has done to one address so far.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Touch { Read, Deleted, Set(Obj) }

pub struct C16;
impl Prop for C16 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C16",
            rule: "after every operation and every block: lookups, old and new root, summary over exactly the touched addresses, and proofs equal those of a map with a textbook sparse Merkle tree; a replica fed in another order or rebuilt from contents agrees; conflicting operations are refused",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 250_000,
            components: &[
                ("node/src/block_proposer/state.rs", "real"), ("recproofs state_update circuits", "real, over the stand-in circuit builder"),
                ("plonky2", "stand-in: gates evaluated exactly, a proof is its public values and the key that signed them"),
                ("second replica", "real code, simulated delivery order and restarts"),
            ],
            assumptions: &["the proof system is sound and complete", "hashes do not collide", "addresses are below the field order, and not its last element", "an operation that is refused ends the process (it panics)"],
            unit: "state operations",
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let depth = *r.pick(&DEPTHS);
        let n = r.range(1, 8) as usize;
        let addrs = addresses(r, n, depth as u32 + 1);
        let obj = |r: &mut Rng| Obj { owner: r.below(5) as u8, data: r.below(6) as u8, updated: r.small(1 << 40), credits: r.small(1 << 40) };
        let mut now: BTreeMap<u64, Obj> = BTreeMap::new();
        let mut blocks = vec![];
        let nb = r.range(1, if thorough { 8 } else { 5 });
        let conflict = r.chance(25);
        let (up, del) = (r.range(20, 70), r.range(5, 50));
        for b in 0..nb {
            let mut touched: BTreeMap<u64, Touch> = BTreeMap::new();
            let mut ops = vec![];
            for _ in 0..r.small(if thorough { 30 } else { 14 }) {
                let a = if r.chance(30) && !now.is_empty() { *now.keys().nth(r.usize(now.len())).unwrap() } else { *r.pick(&addrs) };
                let t = touched.get(&a).copied();
                let mut op = if r.chance(up) { SOp::Upsert(a, obj(r)) } else if r.chance(del) { SOp::Delete(a) } else { SOp::Read(a) };
                op = match (t, op) {
                    (Some(Touch::Set(o)), SOp::Upsert(..)) => SOp::Upsert(a, o),
                    (Some(Touch::Set(_)), SOp::Delete(_)) | (Some(Touch::Deleted), SOp::Upsert(..)) => SOp::Read(a),
                    // An update to what is there already.
                    (_, SOp::Upsert(_, _)) if r.chance(10) && now.contains_key(&a) => SOp::Upsert(a, now[&a]),
                    _ => op,
                };
                match op {
                    SOp::Upsert(_, o) => { touched.insert(a, Touch::Set(o)); }
                    // Deleting after a read of nothing leaves the read.
                    SOp::Delete(_) => { if !(t == Some(Touch::Read) && !now.contains_key(&a)) { touched.insert(a, Touch::Deleted); } }
                    SOp::Read(_) => { touched.entry(a).or_insert(Touch::Read); }
                }
                ops.push(op);
            }
            if conflict && b == nb - 1 {
                let busy: Vec<u64> = touched.iter().filter(|t| *t.1 != Touch::Read).map(|t| *t.0).collect();
                if !busy.is_empty() {
                    let a = *r.pick(&busy);
                    ops.push(if touched[&a] != Touch::Deleted && r.chance(50) { SOp::Delete(a) } else { SOp::Upsert(a, obj(r)) });
                }
            }
            for (a, t) in touched {
                match t { Touch::Set(o) => { now.insert(a, o); } Touch::Deleted => { now.remove(&a); } Touch::Read => {} }
            }
            blocks.push(Block { ops, order: if r.chance(80) { r.u64() >> 8 } else { 0 }, restart: r.chance(20) });
        }
        Case { depth, spare: r.chance(20), blocks }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        if !DEPTHS.contains(&c.depth) { return Ok(()); }
        let aux = state_aux(if c.spare { *DEPTHS.iter().find(|d| **d > c.depth).unwrap_or(&c.depth) } else { c.depth });
        let bits = c.depth as u32 + 1;
        let fits = |a: u64| a < ADDR_END && (bits >= 64 || a >> bits == 0);
        let mut m = Model::new(c.depth);
        let mut s = State::new(aux, c.depth);
        let mut twin = State::new(aux, c.depth);
        let circuit = aux.root_circuit(c.depth);
        let same = |got: (Option<&mozak_recproofs::Object<F>>, Option<&mozak_recproofs::Object<F>>), want: (Option<Obj>, Option<Obj>)| got.0.copied() == want.0.map(Obj::real) && got.1.copied() == want.1.map(Obj::real);
        let all: BTreeSet<u64> = c.blocks.iter().flat_map(|b| b.ops.iter().map(SOp::addr)).filter(|a| fits(*a)).collect();
        let mut changes = 0;
        for (b, block) in c.blocks.iter().enumerate() {
            let prev = m.root();
            if block.restart {
                ctx.fault("replica lost and rebuilt from contents");
                twin = State::new(aux, c.depth);
                let mut v: Vec<_> = m.map.iter().collect();
                Rng::new(block.order).shuffle(&mut v);
                for (a, o) in v { twin.apply_operation(Address(*a), Operation::Upsert(o.real())); }
                twin.finalize();
                check!(twin.root_proof().new() == prev, "contents", "block {b}: a tree rebuilt from the same contents has root {:?}, not {prev:?}", twin.root_proof().new());
            }
            let mut touched: BTreeMap<u64, Touch> = BTreeMap::new();
            let mut next = m.map.clone();
            let mut done: Vec<SOp> = vec![];
            let summary_of = |touched: &BTreeMap<u64, Touch>, next: &BTreeMap<u64, Obj>, m: &Model| {
                let h = |x: &BTreeMap<u64, Obj>, a: &u64| x.get(a).map_or(m.empty_leaf(), |o| o.hash());
                trie(&touched.keys().map(|a| (*a, summary(*a, h(&m.map, a), h(next, a)))).collect::<Vec<_>>())
            };
            for op in &block.ops {
                let a = op.addr();
                if !fits(a) { continue; }
                let was = m.map.get(&a).copied();
                let legal = match (touched.get(&a), op) {
                    (Some(Touch::Set(o)), SOp::Upsert(_, n)) => o == n,
                    (Some(Touch::Set(_)), SOp::Delete(_)) | (Some(Touch::Deleted), SOp::Upsert(..)) => false,
                    _ => true,
                };
                let got = guarded(|| s.apply_operation(Address(a), op.real()));
                ctx.step(1);
                ctx.log(|| format!("{b} {op:?} {got:?}"));
                if !legal {
                    ctx.fault("conflicting operation");
                    check!(got.is_err(), "conflict-accepted", "block {b}: {op:?} after {:?} on an address that held {was:?}", touched[&a]);
                    ctx.nontrivial = true;
                    return Ok(());
                }
                if let Err(e) = got { violate!("refused", "block {b}: {op:?} after {:?} on an address that held {was:?}: {e}", touched.get(&a)) }
                match *op {
                    SOp::Upsert(_, o) => { touched.insert(a, Touch::Set(o)); next.insert(a, o); changes += 1; }
                    SOp::Delete(_) => {
                        if !(touched.get(&a) == Some(&Touch::Read) && was.is_none()) { touched.insert(a, Touch::Deleted); }
                        if next.remove(&a).is_some() { changes += 1; ctx.probe("object deleted"); } else { ctx.probe("absent object deleted"); }
                    }
                    SOp::Read(_) => { if was.is_none() && !touched.contains_key(&a) { ctx.probe("absent object read"); } touched.entry(a).or_insert(Touch::Read); }
                }
                done.push(*op);
                let p = s.root_proof();
                check!(p.old() == prev, "old-root", "block {b} after {op:?}: old root {:?}, the previous block left {prev:?}", p.old());
                check!(p.new() == m.root_of(&next), "new-root", "block {b} after {op:?}: new root {:?}, contents give {:?}", p.new(), m.root_of(&next));
                check!(same(s.get_state(Address(a)), (was, next.get(&a).copied())), "lookup", "block {b} after {op:?}: {:?}, want {:?}", s.get_state(Address(a)), (was, next.get(&a)));
            }
            let p = s.root_proof();
            let sum = summary_of(&touched, &next, &m);
            check!(p.summary_present() == sum.is_some(), "summary", "block {b}: summary_present={} after {} addresses were touched", p.summary_present(), touched.len());
            if let Some(x) = sum { check!(p.summary() == x, "summary", "block {b}: summary {:?} over {touched:?}, want {x:?}", p.summary()); }
            check!(p.address_present() == sum.is_some() && (sum.is_none() || p.address() == 0), "address", "block {b}: root says address {} present={}", p.address(), p.address_present());
            if let Err(e) = circuit.verify(p.clone()) { violate!("proof", "block {b}: {e}") }
            for a in &all { check!(same(s.get_state(Address(*a)), (m.map.get(a).copied(), next.get(a).copied())), "lookup", "block {b}, address {a:#x}: {:?}, want {:?}", s.get_state(Address(*a)), (m.map.get(a), next.get(a))); }
            // The other replica hears of the operations in another order.
            let mut other = done.clone();
            if block.order != 0 {
                ctx.fault("operations reordered");
                let mut queues: BTreeMap<u64, Vec<SOp>> = BTreeMap::new();
                for o in done.iter().rev() { queues.entry(o.addr()).or_default().push(*o); }
                let mut r = Rng::new(block.order);
                other.clear();
                while !queues.is_empty() {
                    let k = *queues.keys().nth(r.usize(queues.len())).unwrap();
                    let q = queues.get_mut(&k).unwrap();
                    other.push(q.pop().unwrap());
                    if q.is_empty() { queues.remove(&k); }
                }
            }
            for o in &other { if let Err(e) = guarded(|| twin.apply_operation(Address(o.addr()), o.real())) { violate!("refused", "block {b}, other order: {o:?}: {e}") } }
            let (p, q) = (s.root_proof(), twin.root_proof());
            check!((p.old(), p.new(), p.summary_present(), p.summary()) == (q.old(), q.new(), q.summary_present(), q.summary()), "order", "block {b}: {:?} in one order, {:?} in another", (p.old(), p.new(), p.summary()), (q.old(), q.new(), q.summary()));
            if let Err(e) = circuit.verify(q.clone()) { violate!("proof", "block {b}, other order: {e}") }
            s.finalize();
            twin.finalize();
            m.map = next;
            for (who, s) in [("first", &s), ("second", &twin)] {
                let p = s.root_proof();
                check!(p.old() == m.root() && p.new() == m.root(), "finalize", "block {b}, {who} replica finalized: {:?} to {:?}, contents give {:?}", p.old(), p.new(), m.root());
                check!(!p.summary_present() && !p.address_present(), "finalize-summary", "block {b}, {who} replica finalized: a summary is left");
                if let Err(e) = circuit.verify(p.clone()) { violate!("proof", "block {b}, {who} replica finalized: {e}") }
                for a in &all { let o = m.map.get(a).copied(); check!(same(s.get_state(Address(*a)), (o, o)), "lookup", "block {b} finalized, address {a:#x}: {:?}, want {o:?}", s.get_state(Address(*a))); }
            }
            ctx.log(|| format!("block {b}: root {:?}, {} objects", m.root(), m.map.len()));
        }
        ctx.nontrivial = changes > 0;
        Ok(())
    }
}
