//! C15: what a block's events do to the objects they name.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use mozak_node::block_proposer::matches::Matches;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use mozak_node::block_proposer::OngoingTxKey;
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash as H;
use plonky2::plonk::config::Hasher;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};

use crate::kit::*;

/// One program's part in a transaction.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    pub owner: u8,
    pub events: Vec<Ev>,
}
pub type State = BTreeMap<u64, Obj>;

// ------------------------------------------------------------------ the rules

/// May these events, all on one address, take the object from `old` to `new` (whose height is
/// not looked at)?
pub fn legal(evs: &[(u8, Ev)], old: Obj, new: Obj) -> bool {
    let of = |k: u8| evs.iter().filter(move |e| e.1.kind % 5 == k);
    let (w, g, t) = (of(0).count(), of(3).count(), of(4).count());
    let who = |p: u8| program_word(p % PROGRAMS);
    let (oo, no) = (program_word(old.owner), program_word(new.owner));
    let (od, nd) = (value_word(old.data), value_word(new.data));
    let creation = oo == [0; 4];
    let deletion = no == [0; 4];
    w <= 1 && g <= 1 && t <= 1 && g == t
        // Only the owner writes, and gives away; who takes says from whom.
        && of(0).all(|e| program_word(e.0) == oo)
        && of(3).all(|e| program_word(e.0) == oo && who(e.1.val) == no)
        && of(4).all(|e| program_word(e.0) == no && who(e.1.val) == oo)
        && of(2).all(|e| value_word(e.1.val) == od)
        && of(0).chain(of(1)).all(|e| value_word(e.1.val) == nd)
        && (w == 1 || od == nd)
        // Ownership changes only to create or to delete.
        && usize::from(creation) + usize::from(deletion) + usize::from(oo == no) == 1
        && (creation || deletion) == (g == 1)
        && old.credits == new.credits
}
/// The object the events ask for.
pub fn prescribed(evs: &[(u8, Ev)], old: Obj, height: u64) -> Obj {
    let of = |k: u8| evs.iter().find(move |e| e.1.kind % 5 == k);
    let owner = of(3).map(|e| e.1.val % PROGRAMS).or(of(4).map(|e| e.0)).unwrap_or(old.owner);
    aged(evs, old, Obj { owner, data: of(0).map_or(old.data, |e| e.1.val), updated: 0, credits: old.credits }, height)
}
/// `new` with the height it must carry.
pub fn aged(evs: &[(u8, Ev)], old: Obj, new: Obj, height: u64) -> Obj {
    let touched = evs.iter().any(|e| e.1.kind % 5 == 0 || e.1.kind % 5 == 3);
    Obj { updated: if program_word(new.owner) == [0; 4] { 0 } else if touched { height } else { old.updated }, ..new }
}

// ----------------------------------------------------------------- generation

/// A block's worth of legal events, dealt out to transactions.
pub fn gen_block(r: &mut Rng, state: &mut State, addrs: &[u64], txs: u64, height: u64) -> Vec<Vec<Part>> {
    let mut list: Vec<(u8, Ev)> = vec![];
    let mut used = BTreeSet::new();
    for _ in 0..r.range(1, addrs.len() as u64) {
        let addr = *r.pick(addrs);
        if !used.insert(addr) { continue; }
        let old = state.get(&addr).copied().unwrap_or(Obj::NONE);
        let mut here: Vec<(u8, Ev)> = vec![];
        let mut ev = |o: u8, kind: u8, val: u8| here.push((o, Ev { addr, kind, val }));
        let any = |r: &mut Rng| r.below(6) as u8;
        let (reads, ensures) = (r.small(3), r.small(3));
        if old.owner == 0 {
            let (to, v) = (1 + r.below(5) as u8, r.below(6) as u8);
            ev(0, 3, to);
            ev(to, 4, 0);
            let v = if r.chance(80) { ev(0, 0, v); v } else { 0 };
            for _ in 0..reads { ev(any(r), 2, 0); }
            for _ in 0..ensures { ev(any(r), 1, v); }
        } else if r.chance(25) && old.credits == 0 {
            ev(old.owner, 3, 0);
            ev(0, 4, old.owner);
            if old.data != 0 || r.chance(30) { ev(old.owner, 0, 0); }
            for _ in 0..reads { ev(any(r), 2, old.data); }
            for _ in 0..ensures { ev(any(r), 1, 0); }
        } else {
            let v = if r.chance(60) { let v = if r.chance(20) { old.data } else { any(r) }; ev(old.owner, 0, v); v } else { old.data };
            for _ in 0..reads { ev(any(r), 2, old.data); }
            for _ in 0..ensures { ev(any(r), 1, v); }
        }
        if here.is_empty() { continue; }
        let new = prescribed(&here, old, height);
        if new.owner == 0 { state.remove(&addr); } else { state.insert(addr, new); }
        list.extend(here);
    }
    deal(r, list, txs)
}
/// Hands events to transactions, one part per program in each.
pub fn deal(r: &mut Rng, mut list: Vec<(u8, Ev)>, txs: u64) -> Vec<Vec<Part>> {
    r.shuffle(&mut list);
    let mut out: Vec<Vec<Part>> = (0..r.range(1, txs)).map(|_| vec![]).collect();
    for (o, e) in list {
        let k = r.usize(out.len());
        match out[k].iter_mut().find(|p| p.owner == o) {
            Some(p) => p.events.push(e),
            None => out[k].push(Part { owner: o, events: vec![e] }),
        }
    }
    out.retain(|t| !t.is_empty());
    for t in &mut out { for p in t.iter_mut() { p.events = canonical(&p.events); } }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ingest(u8, u8),
    Ready(u8),
    Finalize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tamper {
    /// Which finalize, which of its addresses (in order), old or new object, field, value.
    pub block: u8,
    pub at: u8,
    pub old: bool,
    pub field: u8,
    pub val: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub height: u64,
    pub start: Vec<(u64, Obj)>,
    pub txs: Vec<Vec<Part>>,
    pub ops: Vec<Op>,
    pub tamper: Option<Tamper>,
    pub orders: Vec<u64>,
}

fn keys() -> &'static [OngoingTxKey] {
    static K: OnceLock<Vec<OngoingTxKey>> = OnceLock::new();
    K.get_or_init(|| simkit::isolated(1, || {
        let mut acc = TransactionAccumulator::new(tx_aux());
        (0..32u8).map(|n| {
            let call = fs([u64::from(n), 1, 2, 3]);
            let p = program(1);
            acc.ingest_program(0, &p.circuit.verifier_only, &p.prove(None, call, cast_root(&[1])), &[pid(1)], &[], call).expect("key").0
        }).collect()
    }))
}

pub struct C15;
impl Prop for C15 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C15",
            rule: "a block's events are accepted exactly when the ownership and data rules allow the change at every address, in every arrival order; the match proof carries the block's height, the prescribed change of every address named and each event once",
            level: "exploration",
            quick_runs: 12_000,
            thorough_runs: 250_000,
            components: &[
                ("node/src/block_proposer/matches.rs", "real"), ("recproofs accumulate_delta, match_delta circuits", "real, over the stand-in circuit builder"),
                ("plonky2", "stand-in: gates evaluated exactly, a proof is its public values and the key that signed them"), ("arrival order", "simulated"),
            ],
            assumptions: &["the proof system is sound and complete", "hashes do not collide", "addresses and values are canonical field elements", "a block has at least one event", "refusal ends the block (it panics)"],
            unit: "events",
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let n = r.range(1, if thorough { 8 } else { 5 }) as usize;
        let addrs = addresses(r, n, 64);
        let height = r.small(1 << 30) + 1;
        let mut state: State = BTreeMap::new();
        for a in &addrs { if r.chance(60) { state.insert(*a, Obj { owner: 1 + r.below(5) as u8, data: r.below(6) as u8, updated: r.below(height), credits: if r.chance(70) { 0 } else { r.below(1000) } }); } }
        let start: Vec<(u64, Obj)> = state.iter().map(|x| (*x.0, *x.1)).collect();
        let mut txs: Vec<Vec<Part>> = vec![];
        let mut at: Vec<(u64, u64, Op)> = vec![];
        let mut clock: u64 = 0;
        let spread = *r.pick(&[0, 4, 40]);
        for b in 0..r.range(1, 3) {
            let per = if r.chance(30) { 1 } else { 4 };
            let block = gen_block(r, &mut state, &addrs, per, height + b);
            let mut end = clock;
            for parts in block {
                if txs.len() >= 28 { break; }
                let t = txs.len() as u8;
                let mut last = clock;
                for p in 0..parts.len() {
                    // Parts may come long before their transaction is complete.
                    let when = clock.saturating_sub(r.below(spread + 1)) + r.below(spread + 1);
                    last = last.max(when);
                    at.push((when, r.u64(), Op::Ingest(t, p as u8)));
                }
                let ready = last + 1 + r.below(spread + 1);
                at.push((ready, r.u64(), Op::Ready(t)));
                end = end.max(ready);
                if r.chance(5) { at.push((ready + r.below(3), r.u64(), Op::Ready(t))); }
                txs.push(parts);
            }
            clock = end + 1;
            at.push((clock, 0, Op::Finalize));
            clock += 1;
        }
        // One thing that may be against the rules.
        let mut tamper = None;
        if r.chance(45) && !txs.is_empty() {
            let t = r.usize(txs.len());
            let p = r.usize(txs[t].len());
            let k = r.usize(txs[t][p].events.len());
            match r.below(8) {
                0 => { txs[t][p].owner = r.below(7) as u8; }
                1 => { let e = txs[t][p].events[k]; txs[t][p].events.push(e); }
                2 => { txs[t][p].events.remove(k); }
                3 => { txs[t][p].events[k].val = r.below(7) as u8; }
                4 => { txs[t][p].events[k].kind = r.below(5) as u8; }
                5 => { txs[t][p].events[k].addr = *r.pick(&addrs); }
                6 => { let e = Ev { addr: *r.pick(&addrs), kind: r.below(5) as u8, val: r.below(6) as u8 }; txs[t][p].events.push(e); }
                _ => { tamper = Some(Tamper { block: r.below(3) as u8, at: r.u8(), old: r.chance(40), field: r.below(4) as u8, val: r.below(7) as u8 }); }
            }
        }
        at.sort_by_key(|x| (x.0, x.1));
        Case { height, start, txs, ops: at.into_iter().map(|x| x.2).collect(), tamper, orders: (0..r.range(1, 2)).map(|_| r.u64() >> 8).collect() }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        if c.height == 0 || c.height > 1 << 40 || c.txs.len() > keys().len() { return Ok(()); }
        if c.txs.iter().flatten().any(|p| p.owner >= PROGRAMS) { return Ok(()); }
        // The given order, then others: within a block a transaction's parts still come before
        // its end.
        let first = play(c, &c.ops, ctx)?;
        for o in &c.orders {
            ctx.fault("arrivals reordered");
            let mut r = Rng::new(*o);
            let mut ops: Vec<Op> = vec![];
            for segment in c.ops.split_inclusive(|o| matches!(o, Op::Finalize)) {
                let (mut body, tail): (Vec<Op>, Vec<Op>) = segment.iter().cloned().partition(|o| !matches!(o, Op::Finalize));
                r.shuffle(&mut body);
                // Put each transaction's end back behind its parts.
                let ends: Vec<u8> = body.iter().filter_map(|o| if let Op::Ready(t) = o { Some(*t) } else { None }).collect();
                body.retain(|o| matches!(o, Op::Ingest(..)));
                for t in ends {
                    let lo = body.iter().rposition(|o| matches!(o, Op::Ingest(u, _) if *u == t)).map_or(0, |i| i + 1);
                    let at = r.range(lo as u64, body.len() as u64) as usize;
                    body.insert(at, Op::Ready(t));
                }
                ops.extend(body);
                ops.extend(tail);
            }
            let again = play(c, &ops, ctx)?;
            check!(first == again, "order", "blocks {first:?} in one order, {again:?} in another");
        }
        Ok(())
    }
}

/// State deltas of the blocks that were accepted (and whether one was refused).
fn play(c: &Case, ops: &[Op], ctx: &mut Ctx) -> Result<(Vec<HashOut<F>>, bool), simkit::Violation> {
    let mut state: State = c.start.iter().map(|(a, o)| (a % ADDR_END, *o)).collect();
    let mut m = Matches::new(match_aux());
    let mut ongoing: BTreeMap<u8, Vec<(u8, Ev)>> = BTreeMap::new();
    let mut gone: BTreeSet<(u8, u8)> = BTreeSet::new();
    // Per transaction made ready: its events in order of arrival.
    let mut ready: Vec<Vec<(u8, Ev)>> = vec![];
    let mut height = c.height;
    let mut block = 0;
    let mut out = vec![];
    // A conflict may be noticed as soon as its events meet; it must be noticed by the end.
    let mut doomed: Option<String> = None;
    for op in ops {
        match *op {
            Op::Ingest(t, p) => {
                let (ti, pi) = (usize::from(t), usize::from(p));
                if ti >= c.txs.len() || pi >= c.txs[ti].len() || !gone.insert((t, p)) { continue; }
                let part = &c.txs[ti][pi];
                let evs = canonical(&part.events);
                ctx.step(evs.len() as u64);
                let got = guarded(|| m.ingest_events(keys()[ti], &pid(part.owner), &real_events(&evs)));
                ctx.log(|| format!("ingest {t}.{p} {evs:?}: {got:?}"));
                ongoing.entry(t).or_default().extend(evs.iter().map(|e| (part.owner, *e)));
                if let Err(e) = got { doomed = Some(e); break; }
            }
            Op::Ready(t) => {
                if usize::from(t) >= c.txs.len() { continue; }
                let got = guarded(|| m.ready_tx(keys()[usize::from(t)]).map_err(|e| e.to_string()));
                ctx.log(|| format!("ready {t}: {got:?}"));
                match (got, ongoing.remove(&t)) {
                    (Ok(Ok(())), Some(evs)) => ready.push(evs),
                    (Ok(Err(_)), None) => ctx.fault("unknown transaction made ready"),
                    (Err(e), Some(evs)) => { ready.push(evs); doomed = Some(e); break; }
                    (got, had) => violate!("ready", "transaction {t} (known: {}): {got:?}", had.is_some()),
                }
            }
            Op::Finalize => {
                let mut per: BTreeMap<u64, Vec<(u8, Ev)>> = BTreeMap::new();
                let mut fold: BTreeMap<u64, HashOut<F>> = BTreeMap::new();
                for tx in std::mem::take(&mut ready) {
                    let mut mine: BTreeMap<u64, HashOut<F>> = BTreeMap::new();
                    for (o, e) in &tx {
                        per.entry(e.addr).or_default().push((*o, *e));
                        let h = e.rp_hash(*o);
                        mine.entry(e.addr).and_modify(|x| *x = H::two_to_one(*x, h)).or_insert(h);
                    }
                    for (a, h) in mine { fold.entry(a).and_modify(|x| *x = H::two_to_one(*x, h)).or_insert(h); }
                }
                if per.is_empty() { block += 1; continue; }
                // What the proposer is told about the objects.
                let mut told: BTreeMap<u64, (Obj, Obj)> = BTreeMap::new();
                for (i, (a, evs)) in per.iter().enumerate() {
                    let mut old = state.get(a).copied().unwrap_or(Obj::NONE);
                    let mut new = prescribed(evs, old, height);
                    if let Some(t) = c.tamper.as_ref().filter(|t| t.block == block && usize::from(t.at) % per.len() == i) {
                        let o = if t.old { &mut old } else { &mut new };
                        match t.field % 4 { 0 => o.owner = t.val % PROGRAMS, 1 => o.data = t.val, 2 => o.credits = u64::from(t.val), _ => o.updated = u64::from(t.val) }
                        ctx.fault("object misreported");
                    }
                    told.insert(*a, (old, new));
                }
                let good = per.iter().all(|(a, evs)| legal(evs, told[a].0, told[a].1));
                let got = guarded(|| m.finalize(height, |a| { let (o, n) = told.get(&a.0).copied().unwrap_or((Obj::NONE, Obj::NONE)); (o.real(), n.real()) }));
                ctx.log(|| format!("finalize {height}: legal={good} {:?}", got.as_ref().map(|p| (p.events(), p.state_hash()))));
                let p = match got {
                    Err(e) if good => violate!("legal-refused", "block of {per:?}, objects {told:?}: {e}"),
                    Err(_) => { ctx.fault("events against the rules"); ctx.nontrivial = true; return Ok((out, true)); }
                    Ok(_) if !good => violate!("illegal-accepted", "block of {per:?}, objects {told:?}"),
                    Ok(p) => p,
                };
                check!(p.block_height() == height, "height", "{} instead of {height}", p.block_height());
                let news: BTreeMap<u64, Obj> = per.iter().map(|(a, evs)| (*a, aged(evs, told[a].0, told[a].1, height))).collect();
                let want = trie(&news.iter().map(|(a, n)| (*a, summary(*a, told[a].0.hash(), n.hash()))).collect::<Vec<_>>()).unwrap();
                check!(p.state_hash() == want, "delta", "state change {:?} from events {per:?} on {told:?}, want {want:?} for {news:?}", p.state_hash());
                let want = trie(&fold.into_iter().collect::<Vec<_>>()).unwrap();
                check!(p.events() == want, "events", "event root {:?}, the events ready have {want:?}", p.events());
                out.push(p.state_hash());
                if let Err(e) = match_aux().branch_circuit().verify(p) { violate!("proof", "{e}") }
                for (a, n) in news { if n.owner == 0 { state.remove(&a); } else { state.insert(a, n); } }
                if per.len() > 1 || per.values().any(|v| v.len() > 1) { ctx.nontrivial = true; }
                ctx.probe("block matched");
                height += 1;
                block += 1;
            }
        }
    }
    if let Some(e) = doomed {
        // Everything that has met so far, in one transaction or among the ready ones.
        let mut sets: Vec<Vec<(u8, Ev)>> = ongoing.into_values().collect();
        sets.push(ready.concat());
        let clash = sets.iter().any(|s| {
            let mut per: BTreeMap<u64, Vec<(u8, Ev)>> = BTreeMap::new();
            for (o, e) in s { per.entry(e.addr).or_default().push((*o, *e)); }
            per.values().any(|v| contradictory(v))
        });
        check!(clash, "legal-refused", "events that agree: {sets:?}: {e}");
        ctx.fault("events that contradict each other");
        ctx.nontrivial = true;
        return Ok((out, true));
    }
    Ok((out, false))
}

/// No old and new object can satisfy all of these events.
fn contradictory(evs: &[(u8, Ev)]) -> bool {
    let of = |k: u8| evs.iter().filter(move |e| e.1.kind % 5 == k);
    let differ = |v: Vec<[u64; 4]>| v.windows(2).any(|w| w[0] != w[1]);
    of(0).count() > 1 || of(3).count() > 1 || of(4).count() > 1
        || differ(of(0).chain(of(3)).map(|e| program_word(e.0)).chain(of(4).map(|e| program_word(e.1.val % PROGRAMS))).collect())
        || differ(of(4).map(|e| program_word(e.0)).chain(of(3).map(|e| program_word(e.1.val % PROGRAMS))).collect())
        || differ(of(2).map(|e| value_word(e.1.val)).collect())
        || differ(of(0).chain(of(1)).map(|e| value_word(e.1.val)).collect())
}
