//! C08: a guest refuses records that do not match what it does.
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, EventType, Poseidon2Hash, RawMessage, StateAddress};
use serde::{Deserialize, Serialize};
use simkit::{check, violate, Ctx, Info, Outcome, Prop, Rng};
use txkit::gen::{tx, Want};
use txkit::guest::{self, End};
use txkit::reference::{accept, canon_of, cast_root, reply, request, sort_canon, to_bytes_reply, to_bytes_request, Canon, Record};
use txkit::script::{event_type, make, Body, Shape};
use txkit::{pid, Id, Tx};

use crate::c07::{callees, clip, derive, record, reentrant};
use crate::io::Quirks;

/// A place in a list, counted modulo its length.
type Ix = u16;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Method(u8),
    Code(u8),
    Body(Shape),
    /// Flip a bit somewhere in the body.
    Bit(u16),
    /// Another message's.
    Of(Ix),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    CallDrop(Ix),
    CallDup(Ix, Ix),
    CallSwap(Ix, Ix),
    CallMove(Ix, Ix),
    /// A message made up from the parts of another.
    CallForge { at: Ix, of: Ix, caller: u8, callee: u8 },
    Caller(Ix, u8),
    Callee(Ix, u8),
    Argument(Ix, How),
    Result(Ix, How),
    EventDrop(Ix),
    EventDup(Ix, Ix),
    EventSwap(Ix, Ix),
    EventForge { at: Ix, kind: u8, address: Ix, value: u8 },
    EventKind(Ix, u8),
    EventAddress(Ix, u8),
    EventValue(Ix, u8),
    /// Overwrite where the k-th emission claims to be listed.
    Hint(Ix, u32),
    HintSwap(Ix, Ix),
    /// Exchange list entries, leaving the hints.
    Entry(Ix, Ix),
    /// Of several equal events one is replaced by another event, all emissions claiming the first.
    Smuggle { at: Ix, kind: u8, value: u8 },
    EventsCommitment(u8),
    CastCommitment(u8),
    Identity(u8),
    Input(bool, Ix, u8),
}
use Tamper::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attempt {
    pub victim: Ix,
    pub tampers: Vec<Tamper>,
    /// The forger makes the commitments match again.
    pub cover_up: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tx: Tx,
    /// Guests that serve only so many calls.
    pub limits: Vec<u16>,
    pub attempts: Vec<Attempt>,
}

fn at(i: Ix, n: usize) -> usize { usize::from(i) % n.max(1) }
fn who(tx: &Tx, me: &Id, k: u8) -> Id {
    let n = tx.programs.len();
    match usize::from(k) % (n + 3) {
        0 => [0; 32],
        1 => *me,
        2 => { let mut o = tx.programs[0].id; o[[5, 0, 7, 8, 15, 16, 24, 31][usize::from(k) / (n + 3) % 8]] ^= 0x55; o }
        i => tx.programs[i - 3].id,
    }
}
fn flip(b: &mut Body, k: u16) {
    let bit = 1u8 << (k % 8);
    let k = usize::from(k / 8);
    match b {
        Body::Unit => *b = Body::Word(1),
        Body::Word(w) => *w ^= 1 << (k % 64),
        Body::Bytes(v) if !v.is_empty() => { let n = v.len(); v[k % n] ^= bit }
        Body::Bytes(v) => v.push(0),
        Body::Text(t) => t.push('x'),
        Body::Many(m) => match m.last_mut() { Some(x) => x.0 ^= u32::from(bit), None => m.push((0, vec![])) },
        Body::Object(o) => o.data.push(bit),
        Body::Maybe(_, f) => *f = !*f,
    }
}
/// Events in the order of their emission.
fn temporal(r: &Record) -> Option<Vec<Canon>> { r.events.iter().map(|e| r.events.get(e.1 as usize).map(|x| canon_of(&x.0))).collect() }
fn listed(v: &[Canon]) -> Vec<CanonicalOrderedTemporalHints> {
    let mut sorted = v.to_vec();
    sort_canon(&mut sorted);
    let mut used = vec![false; v.len()];
    let hints: Vec<u32> = v.iter().map(|c| {
        let i = (0..v.len()).find(|i| !used[*i] && sorted[*i] == *c).unwrap();
        used[i] = true;
        i as u32
    }).collect();
    sorted.iter().zip(hints).map(|(c, h)| CanonicalOrderedTemporalHints(CanonicalEvent { address: StateAddress::from(c.0), type_: event_type(c.1), value: Poseidon2Hash(c.2) }, h)).collect()
}
fn alter_call(c: &mut CrossProgramCall, arg: bool, how: &How, other: &CrossProgramCall) {
    if arg {
        let mut q = request(&c.argument.0);
        match how {
            How::Method(m) | How::Code(m) => q.method ^= (*m).max(1),
            How::Body(s) => q.body = make(s, 99),
            How::Bit(k) => flip(&mut q.body, *k),
            How::Of(_) => q = request(&other.argument.0),
        }
        c.argument = RawMessage(to_bytes_request(&q));
    } else {
        let mut y = reply(&c.return_.0);
        match how {
            How::Method(m) | How::Code(m) => y.code ^= 1 << (m % 64),
            How::Body(s) => y.body = make(s, 99),
            How::Bit(k) => flip(&mut y.body, *k),
            How::Of(_) => y = reply(&other.return_.0),
        }
        c.return_ = RawMessage(to_bytes_reply(&y));
    }
}
pub fn tamper(r: &mut Record, t: &Tamper, tx: &Tx) {
    let n = r.calls.len();
    let me = r.me;
    let ev = |r: &mut Record, f: &dyn Fn(&mut Vec<Canon>)| {
        if let Some(mut v) = temporal(r) {
            f(&mut v);
            r.events = listed(&v);
        }
    };
    match t {
        CallDrop(i) if n > 0 => { r.calls.remove(at(*i, n)); }
        CallDup(i, j) if n > 0 => { let c = r.calls[at(*i, n)].clone(); r.calls.insert(at(*j, n + 1), c) }
        CallSwap(i, j) if n > 0 => r.calls.swap(at(*i, n), at(*j, n)),
        CallMove(i, j) if n > 0 => { let c = r.calls.remove(at(*i, n)); r.calls.insert(at(*j, n), c) }
        CallForge { at: a, of, caller, callee } if n > 0 => {
            let mut c = r.calls[at(*of, n)].clone();
            c.caller = pid(&who(tx, &me, *caller));
            c.callee = pid(&who(tx, &me, *callee));
            r.calls.insert(at(*a, n + 1), c);
        }
        Caller(i, k) if n > 0 => r.calls[at(*i, n)].caller = pid(&who(tx, &me, *k)),
        Callee(i, k) if n > 0 => r.calls[at(*i, n)].callee = pid(&who(tx, &me, *k)),
        Argument(i, how) | Result(i, how) if n > 0 => {
            let other = if let How::Of(j) = how { r.calls[at(*j, n)].clone() } else { r.calls[0].clone() };
            alter_call(&mut r.calls[at(*i, n)], matches!(t, Argument(..)), how, &other);
        }
        EventDrop(i) => ev(r, &|v| if !v.is_empty() { v.remove(at(*i, v.len())); }),
        EventDup(i, j) => ev(r, &|v| if !v.is_empty() { let c = v[at(*i, v.len())]; v.insert(at(*j, v.len() + 1), c) }),
        EventSwap(i, j) => ev(r, &|v| if !v.is_empty() { let n = v.len(); v.swap(at(*i, n), at(*j, n)) }),
        EventForge { at: a, kind, address, value } => ev(r, &|v| {
            let adr = if v.is_empty() { [9; 8] } else { v[at(*address, v.len())].0 };
            let c = (adr, kind % 5, [*value; 32].map(|b| b & 0x7f));
            v.insert(at(*a, v.len() + 1), c);
        }),
        EventKind(i, k) => ev(r, &|v| if !v.is_empty() { let n = v.len(); v[at(*i, n)].1 = k % 5 }),
        EventAddress(i, k) => ev(r, &|v| if !v.is_empty() { let n = v.len(); v[at(*i, n)].0[usize::from(k / 8 % 8)] ^= 1 << (k % 8) }),
        EventValue(i, k) => ev(r, &|v| if !v.is_empty() { let n = v.len(); v[at(*i, n)].2[usize::from(k / 8)] ^= 1 << (k % 8) }),
        Hint(i, h) if !r.events.is_empty() => { let n = r.events.len(); r.events[at(*i, n)].1 = *h % (n as u32 + 2) }
        HintSwap(i, j) if !r.events.is_empty() => {
            let n = r.events.len();
            let (a, b) = (r.events[at(*i, n)].1, r.events[at(*j, n)].1);
            r.events[at(*i, n)].1 = b;
            r.events[at(*j, n)].1 = a;
        }
        Entry(i, j) if !r.events.is_empty() => {
            let n = r.events.len();
            let (a, b) = (r.events[at(*i, n)].0, r.events[at(*j, n)].0);
            r.events[at(*i, n)].0 = b;
            r.events[at(*j, n)].0 = a;
        }
        Smuggle { at: i, kind, value } => {
            let n = r.events.len();
            let same: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).filter(|(a, b)| r.events[*a].0 == r.events[*b].0).collect();
            if !same.is_empty() {
                let (a, b) = same[at(*i, same.len())];
                r.events[b].0 = CanonicalEvent { type_: event_type(*kind), value: Poseidon2Hash([value & 0x7f; 32]), ..r.events[b].0 };
                for e in &mut r.events { if e.1 as usize == b { e.1 = a as u32; } }
            }
        }
        EventsCommitment(k) => r.events_commitment[usize::from(k / 8)] ^= 1 << (k % 8),
        CastCommitment(k) => r.cast_commitment[usize::from(k / 8)] ^= 1 << (k % 8),
        Identity(k) => r.me = who(tx, &me, *k),
        Input(public, i, k) => {
            let v = if *public { &mut r.public } else { &mut r.private };
            if !v.is_empty() { let n = v.len(); v[at(*i, n)] ^= (*k).max(1) }
        }
        _ => {}
    }
}
pub fn name(t: &Tamper) -> String { let s = format!("{t:?}"); s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or_default().to_string() }
const _: fn(EventType) -> u8 = txkit::reference::kind_no;

fn gen_tamper(r: &mut Rng, txn: &Tx) -> Tamper {
    let mut ix = |r: &mut Rng| r.below(24) as u16;
    let who = |r: &mut Rng| { let n = txn.programs.len() as u64 + 3; (r.below(n) + n * r.below(8)) as u8 };
    let how = |r: &mut Rng| match r.below(5) {
        0 => How::Method(r.range(1, 3) as u8),
        1 => How::Code(r.u8()),
        2 => How::Body(txkit::gen::shape(r, 20)),
        3 => How::Of(r.below(24) as u16),
        _ => How::Bit(r.below(400) as u16),
    };
    match r.weighted(&[4, 4, 4, 4, 6, 5, 5, 5, 5, 4, 4, 4, 4, 3, 3, 3, 2, 2, 2, 2, 2, 1, 2, 4]) {
        0 => CallDrop(ix(r)),
        1 => CallDup(ix(r), ix(r)),
        2 => CallSwap(ix(r), ix(r)),
        3 => CallMove(ix(r), ix(r)),
        4 => CallForge { at: ix(r), of: ix(r), caller: who(r), callee: who(r) },
        5 => Caller(ix(r), who(r)),
        6 => Callee(ix(r), who(r)),
        7 => Argument(ix(r), how(r)),
        8 => Result(ix(r), how(r)),
        9 => EventDrop(ix(r)),
        10 => EventDup(ix(r), ix(r)),
        11 => EventSwap(ix(r), ix(r)),
        12 => EventForge { at: ix(r), kind: r.below(5) as u8, address: ix(r), value: r.u8() },
        13 => EventKind(ix(r), r.below(5) as u8),
        14 => EventAddress(ix(r), r.u8()),
        15 => EventValue(ix(r), r.u8()),
        16 => Hint(ix(r), r.below(20) as u32),
        17 => HintSwap(ix(r), ix(r)),
        18 => Entry(ix(r), ix(r)),
        19 => EventsCommitment(r.u8()),
        20 => CastCommitment(r.u8()),
        21 => Identity(who(r)),
        22 => Input(r.chance(50), ix(r), r.u8()),
        _ => Smuggle { at: ix(r), kind: r.below(5) as u8, value: r.u8() },
    }
}

pub struct C08;
impl Prop for C08 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C08",
            rule: "a guest halts cleanly on an altered record only if that record is one its program accepts by the reference walk (calls, results, events, commitments all as the program makes them)",
            level: "exploration",
            quick_runs: 1000,
            thorough_runs: 12_000,
            components: &[
                ("sdk/src/mozakvm and common/system.rs (compiled for the VM)", "real"), ("sdk/src/native (recording of the honest record)", "real"),
                ("cli/src/runner.rs raw_tapes_from_system_tape", "real"), ("runner VM", "real"),
                ("Poseidon2 constants", "stand-in"), ("guest programs", "one interpreter, scripted per program"), ("forger", "simulated"),
            ],
            assumptions: &["no program is re-entered while one of its own calls is being served", "messages between other programs are not a guest's to check", "altered messages are well-formed encodings"],
            unit: "guest instructions",
        }
    }
    fn hang_secs(&self) -> u64 { 90 }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let w = Want { programs: 4, ops: if thorough { 7 } else { 5 }, roots: 3, len: *r.pick(&[4, 12, 40]), acyclic: true, identities: false, budget: 14 };
        let txn = tx(r, &w);
        let attempts = (0..r.range(2, if thorough { 10 } else { 6 })).map(|_| {
            let k = *r.pick(&[1, 1, 1, 1, 2, 2, 3]);
            Attempt { victim: r.below(8) as u16, tampers: (0..k).map(|_| gen_tamper(r, &txn)).collect(), cover_up: r.chance(80) }
        }).collect();
        let limits = txn.programs.iter().map(|_| if r.chance(30) { r.range(1, 3) as u16 } else { 0 }).collect();
        Case { tx: txn, limits, attempts }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        if reentrant(&c.tx) || c.tx.programs.iter().any(|p| p.id == [0; 32]) { return Ok(()); }
        let Ok((json, _, account)) = record(&c.tx) else { return Ok(()) };
        if account.overflow { return Ok(()); }
        let plain = Quirks { list: vec![], rest: u16::MAX };
        let ids = callees(&account);
        if ids.is_empty() { return Ok(()); }
        for a in &c.attempts {
            let id = ids[at(a.victim, ids.len())];
            let Some(script) = c.tx.script(&id) else { continue };
            let mut script = script.clone();
            let k = c.tx.programs.iter().position(|p| p.id == id).unwrap_or(0);
            script.limit = c.limits.get(k).copied().unwrap_or(0);
            let Ok(raw) = derive(&json, &plain, &id, ctx) else { return Ok(()) };
            let mut r = Record::decode(&raw);
            for t in &a.tampers {
                tamper(&mut r, t, &c.tx);
                ctx.fault(&name(t));
            }
            if a.cover_up && !a.tampers.iter().any(|t| matches!(t, EventsCommitment(_))) { r.events_commitment = r.events_root(); }
            if a.cover_up && !a.tampers.iter().any(|t| matches!(t, CastCommitment(_))) { r.cast_commitment = cast_root(&r.cast()); }
            let want = accept(&r, &script);
            let ran = guest::run(&script, r.encode(), &[], 30_000_000);
            ctx.step(ran.steps);
            ctx.nontrivial = true;
            ctx.log(|| format!("{:?} {:?} -> {:?}", &id[..4], a, ran.end));
            match (&ran.end, &want) {
                (End::Clean, Err(e)) => violate!("accepted", "program {:02x?}.. halts cleanly on a record changed by {:?}, which it must refuse: {e}", &id[..4], a.tampers),
                (End::Clean, Ok(log)) => {
                    check!(ran.log == *log, "log", "program {:02x?}.. saw {:02x?} in the record, which says {:02x?}", &id[..4], clip(&ran.log), clip(log));
                    ctx.probe("record still acceptable");
                }
                (_, Err(e)) => ctx.probe(&format!("refused: {e}")),
                (End::Endless, _) => ctx.probe("endless"),
                (_, Ok(_)) => ctx.probe("refused although acceptable"),
            }
        }
        Ok(())
    }
}
