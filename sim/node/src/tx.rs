//! C13 and C14: the transaction accumulator behind an unreliable network, with and without
//! deliveries made to do harm.
use std::collections::{BTreeMap, BTreeSet};

use mozak_node::block_proposer::transactions::TransactionAccumulator;
use mozak_node::block_proposer::OngoingTxKey;
use mozak_sdk::common::types::{CanonicalEvent, ProgramIdentifier};
use plonky2::field::types::Field;
use plonky2::hash::hash_types::HashOut;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};

use crate::kit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tx {
    pub call: u8,
    pub cast: Vec<u8>,
    pub events: Vec<Vec<Ev>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// transaction, member
    Deliver(u8, u8),
    Finalize,
    /// transaction, member, kind, two parameters
    Attack(u8, u8, u8, u64, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub txs: Vec<Tx>,
    pub ops: Vec<Op>,
}

pub fn gen_events(r: &mut Rng, addrs: &[u64], max: u64) -> Vec<Ev> {
    let n = match r.below(6) { 0 | 1 => 0, 2 | 3 => 1, _ => r.range(1, max) };
    (0..n).map(|_| Ev { addr: *r.pick(addrs), kind: r.below(5) as u8, val: r.below(6) as u8 }).collect()
}
pub fn gen_cast(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = match r.below(5) { 0 => 1, 1 => r.range(1, 3), 2 => r.range(2, 5), _ => r.range(1, max) } as usize;
    let mut all: Vec<u8> = (0..PROGRAMS).collect();
    r.shuffle(&mut all);
    all.truncate(n);
    if r.chance(60) { all.sort_by_key(|p| pid(*p)); }
    all
}
fn gen_case(r: &mut Rng, thorough: bool, attacks: u64) -> Case {
    let n = r.range(1, if thorough { 5 } else { 4 }) as usize;
    let m = r.range(1, 5) as usize;
    let addrs = addresses(r, m, 64);
    let max_cast = if thorough && r.chance(15) { 33 } else { *r.pick(&[2, 4, 7, 12]) };
    let mut txs: Vec<Tx> = vec![];
    for i in 0..n {
        // Sometimes the same participants again under another call tape, or the reverse.
        let cast = if i > 0 && r.chance(25) { r.pick(&txs).cast.clone() } else { gen_cast(r, max_cast) };
        let call = if i > 0 && r.chance(25) { r.pick(&txs).call } else { i as u8 };
        let per = if cast.len() > 6 { 2 } else { 5 };
        let events = cast.iter().map(|_| gen_events(r, &addrs, per)).collect();
        txs.push(Tx { call, cast, events });
    }
    // The network: each message is delayed, possibly lost and sent again, possibly duplicated.
    let (lossy, dup, spread) = (r.range(0, 30), r.range(0, 25), *r.pick(&[0, 3, 30, 300]));
    let mut at: Vec<(u64, u64, Op)> = vec![];
    for (t, x) in txs.iter().enumerate() {
        let start = r.below(spread + 1);
        for m in 0..x.cast.len() {
            let op = Op::Deliver(t as u8, m as u8);
            let mut when = start + m as u64 + r.below(spread + 1);
            let mut lost = false;
            while r.chance(lossy) {
                if r.chance(20) { lost = true; break; }
                when += r.range(5, 60);
            }
            if !lost { at.push((when, r.u64(), op.clone())); }
            while r.chance(dup) { at.push((when + r.below(spread + 40), r.u64(), op.clone())); }
        }
    }
    let end = at.iter().map(|x| x.0).max().unwrap_or(0);
    for _ in 0..r.range(0, 3) { at.push((r.below(end + 2), r.u64(), Op::Finalize)); }
    if attacks > 0 {
        for _ in 0..r.range(1, attacks) {
            let t = r.usize(txs.len());
            let m = r.usize(txs[t].cast.len());
            at.push((r.below(end + 2), r.u64(), Op::Attack(t as u8, m as u8, r.below(16) as u8, r.u64() >> 8, r.u64() >> 8)));
        }
    }
    at.sort_by_key(|x| (x.0, x.1));
    Case { txs, ops: at.into_iter().map(|x| x.2).collect() }
}

/// What a delivery hands to the proposer.
struct Parcel {
    index: usize,
    verifier: u8,
    proof: Proof,
    cast: Vec<ProgramIdentifier>,
    events: Vec<CanonicalEvent>,
    call: Word,
}
fn call_word(c: u8) -> Word { [86 + u64::from(c), 7, u64::from(c) << 40, ORDER - 1 - u64::from(c)].map(F::from_canonical_u64) }
fn honest(x: &Tx, m: usize) -> Parcel {
    let evs = canonical(&x.events[m]);
    Parcel {
        index: m,
        verifier: x.cast[m],
        proof: program(x.cast[m]).prove(vm_root(&evs), call_word(x.call), cast_root(&x.cast)),
        cast: x.cast.iter().map(|p| pid(*p)).collect(),
        events: real_events(&evs),
        call: call_word(x.call),
    }
}
fn send(acc: &mut TransactionAccumulator, p: &Parcel) -> Result<Result<(OngoingTxKey, bool), String>, String> {
    guarded(|| acc.ingest_program(p.index, &program(p.verifier).circuit.verifier_only, &p.proof, &p.cast, &p.events, p.call).map_err(|e| format!("{e:#}")))
}

/// Makes a delivery that must be refused; `None` when this alteration is no alteration here.
fn attack(txs: &[Tx], t: usize, m: usize, kind: u8, a: u64, b: u64, arrived: &BTreeSet<usize>) -> Option<(&'static str, Parcel)> {
    let x = &txs[t];
    let evs = canonical(&x.events[m]);
    let mut p = honest(x, m);
    let call = call_word(x.call);
    let root = cast_root(&x.cast);
    let other = |not: &[u8]| (0..PROGRAMS).map(|i| (i + (a % u64::from(PROGRAMS)) as u8) % PROGRAMS).find(|q| !not.contains(q));
    let name = match kind % 16 {
        0 => {
            let i = a as usize % p.proof.public_inputs.len();
            p.proof.public_inputs[i] += F::from_canonical_u64(1 + b % (ORDER - 1));
            "altered public value"
        }
        1 => { p.index = x.cast.len() + (a % 3) as usize; "index outside the cast list" }
        2 => { if !arrived.contains(&m) { return None; } "program already ingested" }
        3 => {
            let q = other(&x.cast)?;
            p.verifier = q;
            p.proof = program(q).prove(vm_root(&evs), call, root);
            "program outside the cast list"
        }
        4 => {
            let n = (m + 1 + a as usize % x.cast.len()) % x.cast.len();
            if n == m { return None; }
            p.index = n;
            "another member's place"
        }
        5 => { p.proof = program(x.cast[m]).prove(vm_root(&evs), call_word(x.call.wrapping_add(1 + a as u8 % 200)), root); "proof of another call tape" }
        6 => {
            let mut cast = x.cast.clone();
            if a % 2 == 0 && cast.len() > 1 { cast.pop(); } else { cast.push(other(&x.cast)?); }
            p.proof = program(x.cast[m]).prove(vm_root(&evs), call, cast_root(&cast));
            "proof of another cast list"
        }
        7 => { p.call = call_word(x.call.wrapping_add(1 + a as u8 % 200)); "altered call tape" }
        8 => {
            let n = p.cast.len();
            match a % 4 {
                0 if n > 1 => { p.cast.swap(0, n - 1); }
                1 if n > 1 => { p.cast.pop(); }
                2 => { p.cast.push(pid(other(&x.cast)?)); }
                _ => { let i = b as usize % n; p.cast[i] = pid(other(&x.cast)?); }
            }
            "altered cast list"
        }
        9 => {
            if p.events.is_empty() { return None; }
            p.events.remove(a as usize % p.events.len());
            "event left out"
        }
        10 => {
            let mut v = evs.clone();
            let addr = if v.is_empty() { a % ADDR_END } else { v[a as usize % v.len()].addr };
            v.push(Ev { addr, kind: (b % 5) as u8, val: (b >> 8) as u8 });
            p.events = real_events(&canonical(&v));
            "event added"
        }
        11 => {
            if evs.is_empty() { return None; }
            let mut v = evs.clone();
            let i = a as usize % v.len();
            match b % 3 {
                0 => v[i].addr = (v[i].addr ^ (1 << (b >> 8 & 63))) % ADDR_END,
                1 => v[i].kind = (v[i].kind + 1 + (b >> 8) as u8 % 4) % 5,
                _ => v[i].val = v[i].val.wrapping_add(1 + (b >> 8) as u8 % 5),
            }
            p.events = real_events(&canonical(&v));
            "altered event"
        }
        12 => {
            if evs.len() < 2 { return None; }
            let i = a as usize % (evs.len() - 1);
            p.events.swap(i, i + 1);
            "events out of order"
        }
        13 => {
            let q = other(&[x.cast[m]])?;
            p.verifier = q;
            "another program's verifier key"
        }
        14 => {
            let root_of = vm_root(&evs).unwrap_or(HashOut { elements: fs(value_word(3)) });
            p.proof = program(x.cast[m]).prove_flag(evs.is_empty(), root_of, call, root);
            "events declared against the list"
        }
        _ => {
            // A proof of another transaction, in that transaction's own place.
            let u = (t + 1 + a as usize % txs.len()) % txs.len();
            if u == t || (txs[u].call == x.call && txs[u].cast == x.cast) { return None; }
            let n = txs[u].cast.iter().position(|q| *q == x.cast[m]).unwrap_or(b as usize % txs[u].cast.len());
            let h = honest(&txs[u], n);
            p.proof = h.proof;
            p.verifier = h.verifier;
            "another transaction's proof"
        }
    };
    let same = |l: &[CanonicalEvent], r: &[CanonicalEvent]| l.len() == r.len() && l.iter().zip(r).all(|(a, b)| a.address == b.address && a.type_ == b.type_ && a.value == b.value);
    if (9..=12).contains(&(kind % 16)) && same(&p.events, &real_events(&evs)) { return None; }
    Some((name, p))
}

fn run_case(c: &Case, ctx: &mut Ctx, attacks: bool) -> Outcome {
    // Two transactions with the same participants and call tape are the same transaction.
    let mut seen = BTreeSet::new();
    let txs: Vec<Tx> = c.txs.iter().filter(|x| {
        let distinct: BTreeSet<_> = x.cast.iter().collect();
        !x.cast.is_empty() && x.cast.len() == x.events.len() && distinct.len() == x.cast.len() && x.cast.iter().all(|p| *p < PROGRAMS) && seen.insert((x.call, x.cast.clone()))
    }).cloned().collect();
    if txs.is_empty() { return Ok(()); }
    let mut acc = TransactionAccumulator::new(tx_aux());
    let mut ongoing: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut keys: BTreeMap<usize, OngoingTxKey> = BTreeMap::new();
    let mut ready: Option<Forest> = None;
    let mut completed = 0;

    let mut deliver = |acc: &mut TransactionAccumulator, ready: &mut Option<Forest>, ongoing: &mut BTreeMap<usize, BTreeSet<usize>>, t: usize, m: usize, ctx: &mut Ctx| -> Outcome {
        let x = &txs[t];
        let got = send(acc, &honest(x, m));
        let set = ongoing.entry(t).or_default();
        let dup = !set.insert(m);
        let done = set.len() == x.cast.len();
        ctx.log(|| format!("deliver tx {t} member {m}/{}: {got:?}", x.cast.len()));
        ctx.step(1);
        if dup {
            ctx.fault("message delivered twice");
            match got {
                Ok(Err(_)) => return Ok(()),
                Ok(Ok(_)) => violate!("repeat-accepted", "member {m} of {} was taken twice", x.cast.len()),
                Err(e) => violate!("repeat-panics", "member {m} of {} delivered again: {e}", x.cast.len()),
            }
        }
        if m > 0 && !set.contains(&(m - 1)) { ctx.fault("message overtakes another"); }
        let (key, complete) = match got {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => violate!("honest-refused", "member {m} of {}: {e}", x.cast.len()),
            Err(e) => violate!("honest-panics", "member {m} of {}: {e}", x.cast.len()),
        };
        check!(complete == done, "completion", "member {m}: {} of {} arrived, reported complete={complete}", set.len(), x.cast.len());
        for (u, k) in &keys { check!((*u == t) == (*k == key), "key", "transactions {u} and {t}: keys {k:?} and {key:?}"); }
        keys.insert(t, key);
        if done {
            ongoing.remove(&t);
            let f = tx_forest(&x.cast, &x.events);
            *ready = Some(match ready.take() { None => f, Some(r) => r.merge(f) });
            completed += 1;
            ctx.probe("transaction completed");
        }
        Ok(())
    };
    fn finalize(acc: &mut TransactionAccumulator, ready: &mut Option<Forest>, ctx: &mut Ctx) -> Outcome {
        let got = guarded(|| acc.finalize());
        ctx.step(1);
        let want = ready.take();
        ctx.log(|| format!("finalize: {:?}", got.as_ref().map(|g| g.as_ref().map(|p| (p.events_present(), p.events())).map_err(|e| e.to_string()))));
        match (got, want) {
            (Err(e), _) => violate!("finalize-panics", "{e}"),
            (Ok(Err(_)), None) => Ok(()),
            (Ok(Ok(_)), None) => violate!("finalize-invents", "a proof of no transaction"),
            (Ok(Err(e)), Some(_)) => violate!("finalize-loses", "{e}"),
            (Ok(Ok(p)), Some(f)) => {
                check!(p.events_present() == f.root().is_some(), "events-flag", "events_present={} for {} addresses", p.events_present(), f.0.len());
                if let Some(r) = f.root() { check!(p.events() == r, "events", "root {:?}, the completed transactions' events have {:?}", p.events(), r); }
                if let Err(e) = tx_aux().branch_circuit().verify(p) { violate!("proof", "{e}"); }
                Ok(())
            }
        }
    }

    for op in &c.ops {
        match *op {
            Op::Deliver(t, m) => {
                let (t, m) = (usize::from(t), usize::from(m));
                if t >= txs.len() || m >= txs[t].cast.len() { continue; }
                deliver(&mut acc, &mut ready, &mut ongoing, t, m, ctx)?;
            }
            Op::Finalize => {
                if !ongoing.is_empty() { ctx.fault("finalized with transactions in progress"); }
                finalize(&mut acc, &mut ready, ctx)?;
            }
            Op::Attack(t, m, kind, a, b) => {
                let (t, m) = (usize::from(t), usize::from(m));
                if !attacks || t >= txs.len() || m >= txs[t].cast.len() { continue; }
                let none = BTreeSet::new();
                let Some((name, p)) = attack(&txs, t, m, kind, a, b, ongoing.get(&t).unwrap_or(&none)) else { continue };
                let got = send(&mut acc, &p);
                ctx.step(1);
                ctx.fault(name);
                ctx.log(|| format!("{name}: tx {t} member {m}: {got:?}"));
                match got {
                    Ok(Err(_)) => {}
                    Ok(Ok(_)) => violate!("bad-accepted", "{name}, member {m} of {:?}", txs[t].cast.len()),
                    // The prover stops on contradictory witnesses.
                    Err(e) if e.contains("set twice with different values") => ctx.probe("refused by the prover itself"),
                    Err(e) => violate!("bad-panics", "{name}, member {m} of {:?}: {e}", txs[t].cast.len()),
                }
            }
        }
    }
    finalize(&mut acc, &mut ready, ctx)?;
    // The faults are over: what is still in progress must come to its end.
    let left: Vec<(usize, Vec<usize>)> = ongoing.iter().map(|(t, s)| (*t, (0..txs[*t].cast.len()).filter(|m| !s.contains(m)).collect())).collect();
    if !left.is_empty() { ctx.fault("message lost for good"); }
    for (t, ms) in left { for m in ms { deliver(&mut acc, &mut ready, &mut ongoing, t, m, ctx)?; } }
    check!(ongoing.is_empty(), "harness", "left over: {ongoing:?}");
    finalize(&mut acc, &mut ready, ctx)?;
    finalize(&mut acc, &mut ready, ctx)?;
    ctx.nontrivial = completed > 0 && txs.iter().any(|x| x.cast.len() > 1);
    Ok(())
}

const COMPONENTS: &[(&str, &str)] = &[
    ("node/src/block_proposer (accumulator, trees)", "real"), ("recproofs circuits", "real, over the stand-in circuit builder"),
    ("plonky2", "stand-in: gates evaluated exactly, a proof is its public values and the key that signed them"),
    ("programs", "stub: a circuit that exposes what a program proof exposes"), ("network", "simulated"),
];
const ASSUMES: &[&str] = &["the proof system is sound and complete", "hashes do not collide", "one program occurs once in a cast list", "addresses and values are canonical field elements", "programs list their events in canonical order"];

pub struct C13;
impl Prop for C13 {
    type Case = Case;
    fn info(&self) -> Info {
        Info { id: "C13", rule: "completion, refusal of repeats, keys and finalized event roots equal a set-based model for every delivery history; everything in progress completes once the faults stop", level: "exploration", quick_runs: 20_000, thorough_runs: 500_000, components: COMPONENTS, assumptions: ASSUMES, unit: "deliveries" }
    }
    fn gen(&self, r: &mut Rng, t: bool) -> Case { gen_case(r, t, 0) }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome { run_case(c, ctx, false) }
}
pub struct C14;
impl Prop for C14 {
    type Case = Case;
    fn info(&self) -> Info {
        Info { id: "C14", rule: "every altered, foreign or repeated delivery is refused with an error, and the honest deliveries around it give exactly what they give without it", level: "exploration", quick_runs: 20_000, thorough_runs: 500_000, components: COMPONENTS, assumptions: ASSUMES, unit: "deliveries" }
    }
    fn gen(&self, r: &mut Rng, t: bool) -> Case { gen_case(r, t, if t { 12 } else { 8 }) }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome { run_case(c, ctx, true) }
}
