//! C17: the whole proposer, block after block, with proofs that do not belong together.
use std::collections::{BTreeMap, BTreeSet};

use itertools::Either;
use mozak_node::block_proposer::block::Blocks;
use mozak_node::block_proposer::matches::Matches;
use mozak_node::block_proposer::state::{Operation, State as StateTree};
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use mozak_node::block_proposer::{Address, OngoingTxKey};
use mozak_recproofs::circuits::{match_delta, state_update, verify_tx};
use plonky2::field::types::Field;
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash as H;
use plonky2::plonk::config::Hasher;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};

use crate::kit::*;
use crate::matches::{gen_block, legal, prescribed, State};
use crate::state::Model;

type TxProof = verify_tx::BranchProof<F, C, D>;
type MatchProof = match_delta::BranchProof<F, C, D>;
type StateProof = state_update::BranchProof<F, C, D>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tx {
    pub call: u8,
    pub cast: Vec<u8>,
    pub events: Vec<Vec<Ev>>,
}
/// A block that must be refused: proofs that do not belong together.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    pub kind: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    /// After the honest block rather than before it.
    pub late: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block {
    pub txs: Vec<Tx>,
    /// (transaction, member) in order of arrival
    pub arrivals: Vec<(u8, u8)>,
    /// The proposer dies after so many arrivals and everything is sent again.
    pub crash: Option<u8>,
    /// Order in which the state hears of the changes.
    pub order: u64,
    pub attacks: Vec<Attack>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub depth: usize,
    pub start: Vec<(u64, Obj)>,
    pub blocks: Vec<Block>,
}

// ------------------------------------------------------------------- the rules

/// Transactions in the order they complete.
fn completions(b: &Block) -> Vec<usize> {
    let mut got: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
    let mut out = vec![];
    for (t, m) in &b.arrivals {
        let s = got.entry(*t).or_default();
        if s.insert(*m) && s.len() == b.txs[usize::from(*t)].cast.len() { out.push(usize::from(*t)); }
    }
    out
}
/// Event root of the transactions.
fn forest(b: &Block, order: &[usize]) -> Option<HashOut<F>> {
    order.iter().map(|t| tx_forest(&b.txs[*t].cast, &b.txs[*t].events)).reduce(Forest::merge).and_then(|f| f.root())
}
/// Event root of the matches: one event after the other.
fn folded(b: &Block, order: &[usize]) -> Option<HashOut<F>> {
    let mut all: BTreeMap<u64, HashOut<F>> = BTreeMap::new();
    for t in order {
        let mut mine: BTreeMap<u64, HashOut<F>> = BTreeMap::new();
        for (p, evs) in b.txs[*t].cast.iter().zip(&b.txs[*t].events) {
            for e in canonical(evs) {
                let h = e.rp_hash(*p);
                mine.entry(e.addr).and_modify(|x| *x = H::two_to_one(*x, h)).or_insert(h);
            }
        }
        for (a, h) in mine { all.entry(a).and_modify(|x| *x = H::two_to_one(*x, h)).or_insert(h); }
    }
    trie(&all.into_iter().collect::<Vec<_>>())
}
fn per_address(b: &Block, order: &[usize]) -> BTreeMap<u64, Vec<(u8, Ev)>> {
    let mut per: BTreeMap<u64, Vec<(u8, Ev)>> = BTreeMap::new();
    for t in order {
        for (p, evs) in b.txs[*t].cast.iter().zip(&b.txs[*t].events) {
            for e in canonical(evs) { per.entry(e.addr).or_default().push((*p, e)); }
        }
    }
    per
}
fn call_word(c: u8) -> Word { [5 + u64::from(c), 1 << 33, 0, u64::from(c)].map(F::from_canonical_u64) }

// ------------------------------------------------------------------ proofs made

fn deliver(acc: &mut TransactionAccumulator, x: &Tx, m: usize) -> Result<Result<(OngoingTxKey, bool), String>, String> {
    let evs = canonical(&x.events[m]);
    let p = program(x.cast[m]);
    let proof = p.prove(vm_root(&evs), call_word(x.call), cast_root(&x.cast));
    let cast: Vec<_> = x.cast.iter().map(|p| pid(*p)).collect();
    guarded(|| acc.ingest_program(m, &p.circuit.verifier_only, &proof, &cast, &real_events(&evs), call_word(x.call)).map_err(|e| format!("{e:#}")))
}
fn ingest(m: &mut Matches, key: OngoingTxKey, x: &Tx) -> Result<(), String> {
    guarded(|| {
        for (p, evs) in x.cast.iter().zip(&x.events) { m.ingest_events(key, &pid(*p), &real_events(&canonical(evs))); }
        m.ready_tx(key).map_err(|e| e.to_string())
    })?
}
/// A match proof made on the side.
fn side_match(b: &Block, order: &[usize], keys: &[OngoingTxKey], told: &BTreeMap<u64, (Obj, Obj)>, height: u64) -> Option<MatchProof> {
    let mut m = Matches::new(match_aux());
    for t in order { ingest(&mut m, keys[*t], &b.txs[*t]).ok()?; }
    guarded(|| m.finalize(height, |a| { let (o, n) = told.get(&a.0).copied().unwrap_or((Obj::NONE, Obj::NONE)); (o.real(), n.real()) })).ok()
}
fn tree_of(depth: usize, map: &BTreeMap<u64, Obj>) -> StateTree<'static> {
    let mut s = StateTree::new(state_aux(depth), depth);
    for (a, o) in map { s.apply_operation(Address(*a), Operation::Upsert(o.real())); }
    s.finalize();
    s
}
fn change(old: Obj, new: Obj) -> Operation {
    if new.owner == 0 { Operation::Delete } else if old == new { Operation::Read } else { Operation::Upsert(new.real()) }
}
fn apply(s: &mut StateTree, ops: &[(u64, (Obj, Obj))]) { for (a, (o, n)) in ops { s.apply_operation(Address(*a), change(*o, *n)); } }

/// Do the three belong together, and after a chain with this state and height?
fn agree(t: &TxProof, m: &MatchProof, s: &StateProof, state: HashOut<F>, height: u64) -> bool {
    let root = if t.events_present() { t.events() } else { HashOut::default() };
    root == m.events() && m.block_height() == height + 1 && s.summary_present() && m.state_hash() == s.summary() && s.old() == state && s.address() == 0
}
fn facts(b: &Blocks) -> (u64, HashOut<F>, HashOut<F>, Vec<F>) {
    match b.proof() {
        Either::Left(p) => (p.block_height(), p.base_state(), p.state(), p.proof.public_inputs.clone()),
        Either::Right(p) => (p.block_height(), p.base_state(), p.state(), p.proof.public_inputs.clone()),
    }
}
/// Submits what must be refused; the chain may not move.
fn refuse(chain: &mut Blocks, name: &'static str, (t, m, s): (&TxProof, &MatchProof, &StateProof), ctx: &mut Ctx) -> Outcome {
    let before = facts(chain);
    let got = guarded(|| chain.increment(t, m, s).map_err(|e| e.to_string()));
    ctx.step(1);
    ctx.fault(name);
    ctx.log(|| format!("{name} at height {}: {got:?}", before.0));
    match got {
        Ok(Err(_)) => {}
        Ok(Ok(())) => violate!("bad-accepted", "{name}, after block {}", before.0),
        Err(e) if e.contains("set twice with different values") => ctx.probe("refused by the prover itself"),
        Err(e) => violate!("bad-panics", "{name}, after block {}: {e}", before.0),
    }
    check!(facts(chain) == before, "chain-moved", "{name}: the chain went from {before:?} to {:?}", facts(chain));
    Ok(())
}

const BAD: [&str; 13] = [
    "proofs of several blocks mixed", "altered transaction proof", "altered match proof", "altered state proof", "chain with another base", "state change left out",
    "another block height", "misreported object", "transaction missing from the matches", "state of other contents", "proof of another circuit", "transaction added to the matches",
    "transactions without events",
];

pub struct C17;
impl Prop for C17 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C17",
            rule: "the honest block is accepted at every height and moves height, state and base as it must; every combination of proofs that do not belong together, or not here, is refused and leaves the chain as it was",
            level: "exploration",
            quick_runs: 8_000,
            thorough_runs: 80_000,
            components: &[
                ("node/src/block_proposer (accumulator, matches, state, blocks)", "real"), ("recproofs circuits", "real, over the stand-in circuit builder"),
                ("plonky2", "stand-in: gates evaluated exactly, a proof is its public values and the key that signed them"),
                ("the loop that hands one part's results to the next", "harness: the repository has none"), ("network, crashes", "simulated"),
            ],
            assumptions: &["the proof system is sound and complete", "hashes do not collide", "addresses and values are canonical field elements", "every block has at least one event", "a transaction's events reach the matches in cast order, transactions in order of completion"],
            unit: "blocks submitted",
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let depth = *r.pick(&DEPTHS);
        let n = r.range(1, 5) as usize;
        let mut addrs = addresses(r, n, depth as u32 + 1);
        addrs.sort_unstable();
        addrs.dedup();
        let mut state: State = BTreeMap::new();
        for a in &addrs { if r.chance(60) { state.insert(*a, Obj { owner: 1 + r.below(5) as u8, data: r.below(6) as u8, updated: r.below(1 << 20), credits: if r.chance(70) { 0 } else { r.below(1000) } }); } }
        let start: Vec<(u64, Obj)> = state.iter().map(|x| (*x.0, *x.1)).collect();
        let any_shape = r.chance(10);
        let mut blocks: Vec<Block> = vec![];
        let mut call = 0;
        for h in 1..=r.range(1, if thorough { 6 } else { 4 }) {
            for attempt in 0..30 {
                let mut next = state.clone();
                let k = if attempt > 15 { 1 } else { addrs.len() };
                let parts = gen_block(r, &mut next, &addrs[..k], 4, h);
                if parts.is_empty() { continue; }
                let mut txs = vec![];
                let mut c = call;
                for t in parts {
                    let mut members: Vec<(u8, Vec<Ev>)> = t.into_iter().map(|p| (p.owner, p.events)).collect();
                    for _ in 0..r.small(3) { let p = 10 + r.below(20) as u8; if members.iter().all(|m| m.0 != p) { members.push((p, vec![])); } }
                    r.shuffle(&mut members);
                    let (cast, events) = members.into_iter().unzip();
                    txs.push(Tx { call: c, cast, events });
                    if r.chance(80) { c += 1; }
                }
                let mut arrivals: Vec<(u8, u8)> = txs.iter().enumerate().flat_map(|(t, x)| (0..x.cast.len()).map(move |m| (t as u8, m as u8))).collect();
                if r.chance(70) { r.shuffle(&mut arrivals); }
                if r.chance(20) { let x = *r.pick(&arrivals); arrivals.push(x); }
                let seen: BTreeSet<_> = txs.iter().map(|x| (x.call, x.cast.clone())).collect();
                let b = Block { txs, arrivals, crash: None, order: r.u64() >> 8, attacks: vec![] };
                if seen.len() != b.txs.len() { continue; }
                let order = completions(&b);
                if !any_shape && forest(&b, &order) != folded(&b, &order) { continue; }
                state = next;
                call = c + 1;
                let crash = r.chance(15).then(|| r.below(b.arrivals.len() as u64) as u8);
                let attacks = (0..r.small(6)).map(|_| Attack { kind: r.below(13) as u8, a: r.u64() >> 8, b: r.u64() >> 8, c: r.u64() >> 8, late: r.chance(40) }).collect();
                blocks.push(Block { crash, attacks, ..b });
                break;
            }
        }
        Case { depth, start, blocks }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        if !DEPTHS.contains(&c.depth) { return Ok(()); }
        let bits = c.depth as u32 + 1;
        let fits = |a: u64| a < ADDR_END && (bits >= 64 || a >> bits == 0);
        if !c.start.iter().all(|x| fits(x.0) && x.1.owner != 0 && x.1.owner < PROGRAMS && x.1.updated < ORDER && x.1.credits < ORDER) { return Ok(()); }
        let mut state: State = c.start.iter().copied().collect();
        let mut model = Model::new(c.depth);
        model.map.clone_from(&state);
        let base = model.root();
        let mut tree = tree_of(c.depth, &state);
        let mut acc = TransactionAccumulator::new(tx_aux());
        let mut matches = Matches::new(match_aux());
        let aux = block_aux(c.depth);
        let mut chain = Blocks::new(aux, base);
        check!(facts(&chain).0 == 0 && facts(&chain).1 == base && facts(&chain).2 == base, "genesis", "{:?}", facts(&chain));
        let (mut all_t, mut all_m, mut all_s): (Vec<TxProof>, Vec<MatchProof>, Vec<StateProof>) = Default::default();
        for b in &c.blocks {
            let valid = b.txs.iter().all(|x| {
                let distinct: BTreeSet<_> = x.cast.iter().collect();
                !x.cast.is_empty() && x.cast.len() == x.events.len() && distinct.len() == x.cast.len() && x.cast.iter().all(|p| *p < PROGRAMS) && x.events.iter().flatten().all(|e| fits(e.addr))
            }) && b.txs.iter().map(|x| (x.call, x.cast.clone())).collect::<BTreeSet<_>>().len() == b.txs.len()
                && b.arrivals.iter().all(|(t, m)| b.txs.get(usize::from(*t)).map_or(false, |x| usize::from(*m) < x.cast.len()));
            if !valid { return Ok(()); }
            let order = completions(b);
            let per = per_address(b, &order);
            // The minimiser may leave half transactions, or events no longer allowed.
            if order.len() != b.txs.len() || per.is_empty() { return Ok(()); }
            let height = chain.height() + 1;
            let told: BTreeMap<u64, (Obj, Obj)> = per.iter().map(|(a, evs)| { let o = state.get(a).copied().unwrap_or(Obj::NONE); (*a, (o, prescribed(evs, o, height))) }).collect();
            if !per.iter().all(|(a, evs)| legal(evs, told[a].0, told[a].1) && (told[a].1.owner != 0 || told[a].1 == Obj::NONE)) { return Ok(()); }

            // Arrivals.
            let mut keys: Vec<Option<OngoingTxKey>> = vec![None; b.txs.len()];
            let mut queue = b.arrivals.clone();
            if let Some(k) = b.crash {
                let k = usize::from(k).min(queue.len());
                ctx.fault("proposer crashed, everything sent again");
                for (t, m) in &queue[..k] { let _ = deliver(&mut acc, &b.txs[usize::from(*t)], usize::from(*m)); }
                acc = TransactionAccumulator::new(tx_aux());
                matches = Matches::new(match_aux());
                tree = tree_of(c.depth, &state);
                queue = b.arrivals.clone();
            }
            let mut got: BTreeSet<(u8, u8)> = BTreeSet::new();
            let mut closed: BTreeSet<u8> = BTreeSet::new();
            for (t, m) in queue {
                if closed.contains(&t) { continue; }
                let x = &b.txs[usize::from(t)];
                let dup = !got.insert((t, m));
                match deliver(&mut acc, x, usize::from(m)) {
                    Ok(Err(_)) if dup => ctx.fault("message delivered twice"),
                    Ok(Ok((key, done))) if !dup => {
                        keys[usize::from(t)] = Some(key);
                        if done {
                            closed.insert(t);
                            if let Err(e) = ingest(&mut matches, key, x) { violate!("honest-refused", "matches refuse the events of {x:?}: {e}") }
                        }
                    }
                    got => violate!("honest-refused", "member {m} of {x:?} (again: {dup}): {got:?}"),
                }
            }
            check!(closed.len() == b.txs.len(), "incomplete", "{} of {} transactions completed", closed.len(), b.txs.len());
            let keys: Vec<OngoingTxKey> = keys.into_iter().flatten().collect();

            // The three proofs.
            let t = match guarded(|| acc.finalize()) { Ok(Ok(t)) => t, e => violate!("honest-refused", "transactions do not finalize: {:?}", e.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))) };
            let m = match guarded(|| matches.finalize(height, |a| { let (o, n) = told.get(&a.0).copied().unwrap_or((Obj::NONE, Obj::NONE)); (o.real(), n.real()) })) { Ok(m) => m, Err(e) => violate!("honest-refused", "matches do not finalize: {e}") };
            let mut ops: Vec<(u64, (Obj, Obj))> = told.iter().map(|x| (*x.0, *x.1)).collect();
            if b.order != 0 { Rng::new(b.order).shuffle(&mut ops); }
            if let Err(e) = guarded(|| apply(&mut tree, &ops)) { violate!("honest-refused", "state refuses {ops:?}: {e}") }
            let s = tree.root_proof().clone();
            let mut next = state.clone();
            for (a, (_, n)) in &told { if n.owner == 0 { next.remove(a); } else { next.insert(*a, *n); } }
            model.map.clone_from(&next);
            ctx.log(|| format!("block {height}: {} transactions, events {:?}/{:?}, delta {:?}/{:?}, state {:?}", b.txs.len(), t.events(), m.events(), m.state_hash(), s.summary(), s.new()));
            check!(s.new() == model.root(), "state", "new root {:?}, contents give {:?}", s.new(), model.root());

            let shape = forest(b, &order) == folded(b, &order);
            all_t.push(t.clone());
            all_m.push(m.clone());
            all_s.push(s.clone());
            for late in [false, true] {
                if late {
                    let before = facts(&chain);
                    let got = guarded(|| chain.increment(&t, &m, &s).map_err(|e| e.to_string()));
                    ctx.step(1);
                    match got {
                        Ok(Ok(())) => {}
                        _ if !shape => violate!("event-shape", "block {height}: the transactions and the matches group the same events differently: {per:?}"),
                        e => violate!("honest-refused", "block {height} of {per:?} on {told:?}: {e:?}"),
                    }
                    let after = facts(&chain);
                    check!(chain.height() == before.0 + 1 && after.0 == before.0 + 1, "height", "from {} to {}", before.0, after.0);
                    check!(after.1 == base, "base", "from {base:?} to {:?}", after.1);
                    check!(after.2 == model.root(), "new-state", "{:?}, contents give {:?}", after.2, model.root());
                    if let Either::Right(p) = chain.proof() { if let Err(e) = aux.circuit().verify(p.clone()) { violate!("proof", "{e}") } } else { violate!("proof", "the chain is still at its base") }
                    ctx.probe("block accepted");
                }
                for k in b.attacks.iter().filter(|k| k.late == late) {
                    let (h, st) = (chain.height(), facts(&chain).2);
                    let (mut kt, mut km, mut ks) = (t.clone(), m.clone(), s.clone());
                    let name = BAD[usize::from(k.kind) % 13];
                    let mut altered = false;
                    let mut side = |ct: &BTreeMap<u64, (Obj, Obj)>, ord: &[usize], at: u64| side_match(b, ord, &keys, ct, at);
                    match k.kind % 13 {
                        0 => {
                            // One of the three at least is from elsewhere.
                            let n = all_t.len() as u64;
                            let pick = |x: u64| (x % n) as usize;
                            if k.c >> 8 & 1 == 0 { kt = all_t[pick(k.a)].clone(); }
                            if k.c >> 9 & 1 == 0 { km = all_m[pick(k.b)].clone(); }
                            if k.c >> 10 & 1 == 0 { ks = all_s[pick(k.c)].clone(); }
                        }
                        1 => { let i = k.a as usize % kt.proof.public_inputs.len(); kt.proof.public_inputs[i] += F::from_canonical_u64(1 + k.b % (ORDER - 1)); altered = true; }
                        2 => { let i = k.a as usize % km.proof.public_inputs.len(); km.proof.public_inputs[i] += F::from_canonical_u64(1 + k.b % (ORDER - 1)); altered = true; }
                        3 => { let i = k.a as usize % ks.proof.public_inputs.len(); ks.proof.public_inputs[i] += F::from_canonical_u64(1 + k.b % (ORDER - 1)); altered = true; }
                        4 => {
                            let from = if k.a % 2 == 0 { Model::new(c.depth).root() } else { H::two_to_one(st, base) };
                            if late || from == st { continue; }
                            let mut other = Blocks::new(aux, from);
                            if agree(&t, &m, &s, from, 0) { continue; }
                            refuse(&mut other, name, (&t, &m, &s), ctx)?;
                            continue;
                        }
                        5 | 9 => {
                            // `state` is still what it was before this block.
                            let mut from = state.clone();
                            let mut o = ops.clone();
                            let i = k.a as usize % o.len();
                            if k.kind % 13 == 5 {
                                o.remove(i);
                            } else {
                                match k.b % 3 {
                                    0 => { let a = k.c % ADDR_END & ((1u128 << bits) - 1) as u64; if told.contains_key(&a) { continue; } let x = Obj { owner: 1, data: 1, updated: 1, credits: 1 }; from.insert(a, x); o.push((a, (x, x))); }
                                    1 => { let n = &mut o[i].1 .1; if n.owner == 0 { continue; } n.credits = (n.credits + 1 + k.c) % ORDER; }
                                    _ => { let n = &mut o[i].1 .1; if n.owner == 0 { continue; } n.updated = (n.updated + 1 + k.c) % ORDER; }
                                }
                            }
                            let mut side = tree_of(c.depth, &from);
                            if guarded(|| apply(&mut side, &o)).is_err() { continue; }
                            ks = side.root_proof().clone();
                        }
                        6 => {
                            let at = match k.a % 4 { 0 => height - 1, 1 => height + 1, 2 => k.b % ORDER, _ => 0 };
                            match side(&told, &order, at) { Some(x) => km = x, None => continue }
                        }
                        7 => {
                            let mut lie = told.clone();
                            let a = *lie.keys().nth(k.a as usize % lie.len()).unwrap();
                            let v = lie.get_mut(&a).unwrap();
                            match k.b % 4 {
                                0 => v.0.updated = (v.0.updated + 1 + k.c) % ORDER,
                                1 => { let d = (k.c % 1000) + 1; v.0.credits += d; v.1.credits += d; }
                                2 => v.0.data = v.0.data.wrapping_add(1 + k.c as u8 % 5) % 7,
                                _ => v.0.owner = (v.0.owner + 1 + k.c as u8 % 5) % 7,
                            }
                            if v.0.updated >= ORDER || v.0.credits >= ORDER { continue; }
                            if let Some(x) = lie.get(&a).map(|v| prescribed(&per[&a], v.0, height)) { if k.b % 4 >= 2 { lie.get_mut(&a).unwrap().1 = x; } }
                            match side(&lie, &order, height) { Some(x) => km = x, None => continue }
                        }
                        8 | 11 => {
                            let mut ord = order.clone();
                            if k.kind % 13 == 8 { ord.remove(k.a as usize % order.len()); if ord.is_empty() { continue; } } else { ord.push(order[k.a as usize % order.len()]); }
                            // Whatever the rest asks for.
                            let less: BTreeMap<u64, (Obj, Obj)> = per_address(b, &ord).iter().map(|(a, evs)| (*a, (told[a].0, if k.b % 2 == 0 { told[a].1 } else { prescribed(evs, told[a].0, height) }))).collect();
                            if less.is_empty() { continue; }
                            match side(&less, &ord, height) { Some(x) => km = x, None => continue }
                        }
                        12 => {
                            // Transactions nobody emitted anything in, with the matches of the others.
                            let mut quiet = TransactionAccumulator::new(tx_aux());
                            let n = 1 + k.a % 3;
                            let sent = (0..n).all(|i| { let p = (k.b.wrapping_add(i) % u64::from(PROGRAMS)) as u8; matches!(deliver(&mut quiet, &Tx { call: i as u8, cast: vec![p], events: vec![vec![]] }, 0), Ok(Ok(_))) });
                            if !sent { continue; }
                            match guarded(|| quiet.finalize()) { Ok(Ok(x)) => kt = x, _ => continue }
                        }
                        _ => {
                            // A state proof made by the circuits of a tree of another depth.
                            let d = *DEPTHS.iter().find(|d| **d != c.depth && state.keys().chain(told.keys()).all(|a| **d >= 63 || a >> (**d + 1) == 0)).unwrap_or(&63);
                            if d == c.depth { continue; }
                            let mut side = tree_of(d, &state);
                            if guarded(|| apply(&mut side, &ops)).is_err() { continue; }
                            ks = side.root_proof().clone();
                            if k.a % 2 == 0 { ks.proof.public_inputs.clone_from(&s.proof.public_inputs); }
                            altered = true;
                        }
                    }
                    if !altered && agree(&kt, &km, &ks, st, h) { continue; }
                    refuse(&mut chain, name, (&kt, &km, &ks), ctx)?;
                }
            }
            tree.finalize();
            check!(tree.root_proof().old() == model.root() && tree.root_proof().new() == model.root(), "finalize", "the state finalized is {:?}, contents give {:?}", tree.root_proof().new(), model.root());
            state = next;
        }
        ctx.nontrivial = !all_t.is_empty();
        Ok(())
    }
}
