//! What a program's own replay of a transaction record must look like, stated without the SDK:
//! the record is decoded and walked through, the program's script says what must come next.
use std::collections::BTreeSet;

use mozak_runner::state::RawTapes;
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Event, EventType, Poseidon2Hash, ProgramIdentifier};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon2::Poseidon2Hash as H;
use plonky2::plonk::config::Hasher;
use rkyv::rancor::{Panic, Strategy};
use rkyv::util::AlignedVec;
use rkyv::Deserialize;

use crate::native::{entry, received};
use crate::script::{handle, Op, Reply, Request, Script, World};
use crate::Id;

type Digest = [u8; 32];
/// Poseidon2 sponge over the bytes, one field element each.
pub fn hash(bytes: &[u8]) -> Digest {
    let e: Vec<F> = bytes.iter().map(|b| F::from_canonical_u8(*b)).collect();
    let h = H::hash_no_pad(&e);
    let mut d = [0; 32];
    for (i, x) in h.elements.iter().enumerate() { d[8 * i..8 * i + 8].copy_from_slice(&x.to_canonical_u64().to_le_bytes()); }
    d
}
pub fn hash_pad(bytes: &[u8]) -> Digest {
    let mut b = bytes.to_vec();
    b.push(1);
    while b.len() % 8 != 0 { b.push(0); }
    hash(&b)
}
pub fn node(l: &Digest, r: &Digest) -> Digest { hash(&[l.as_slice(), r.as_slice()].concat()) }
/// Entries of one address are paired up from the left until one is left; addresses form a
/// compressed binary trie.
pub fn root(items: &[(u64, Digest)]) -> Digest {
    match items {
        [] => [0; 32],
        [x] => x.1,
        _ => {
            let (lo, hi) = (items[0].0, items[items.len() - 1].0);
            if lo == hi {
                let mut v: Vec<Digest> = items.iter().map(|x| x.1).collect();
                while v.len() > 1 {
                    v = v.chunks(2).map(|c| if let [a, b] = c { node(a, b) } else { c[0] }).collect();
                }
                return v[0];
            }
            let bit = 63 - (lo ^ hi).leading_zeros();
            let cut = items.iter().position(|x| x.0 >> bit & 1 == 1).unwrap_or(items.len());
            node(&root(&items[..cut]), &root(&items[cut..]))
        }
    }
}
pub fn event_digest(address: &[u8; 8], kind: u8, value: &Digest) -> Digest {
    hash(&[&u64::from(kind).to_le_bytes()[..], &address[..], &value[..]].concat())
}
pub fn kind_no(t: EventType) -> u8 {
    match t {
        EventType::Write => 0,
        EventType::Ensure => 1,
        EventType::Read => 2,
        EventType::GiveOwner => 3,
        EventType::TakeOwner => 4,
    }
}
/// (address, kind, value) of an event.
pub type Canon = ([u8; 8], u8, Digest);
pub fn canon(e: &Event) -> Canon { (e.object.address.inner(), kind_no(e.type_), hash_pad(&e.object.data)) }
pub fn canon_of(e: &CanonicalEvent) -> Canon { (e.address.inner(), kind_no(e.type_), e.value.inner()) }
/// The documented canonical order of events: by address, then kind, then value.
pub fn sort_canon(v: &mut [Canon]) { v.sort_by_key(|c| (u64::from_le_bytes(c.0), c.1, c.2)) }
pub fn events_root(v: &[Canon]) -> Digest {
    root(&v.iter().map(|c| (u64::from_le_bytes(c.0), event_digest(&c.0, c.1, &c.2))).collect::<Vec<_>>())
}
pub fn cast_root(v: &[Id]) -> Digest { root(&v.iter().enumerate().map(|(i, x)| (i as u64, *x)).collect::<Vec<_>>()) }

/// A raw record, decoded.
#[derive(Clone)]
pub struct Record {
    pub me: Id,
    pub calls: Vec<CrossProgramCall>,
    pub events: Vec<CanonicalOrderedTemporalHints>,
    pub events_commitment: Digest,
    pub cast_commitment: Digest,
    pub public: Vec<u8>,
    pub private: Vec<u8>,
}
fn aligned(b: &[u8]) -> AlignedVec {
    let mut v = AlignedVec::new();
    v.extend_from_slice(b);
    v
}
macro_rules! unarchive {
    ($t:ty, $b:expr) => {{
        let v = aligned($b);
        let r: $t = unsafe { rkyv::access_unchecked::<$t>(&v) }.deserialize(Strategy::<_, Panic>::wrap(&mut ())).unwrap();
        r
    }};
}
fn prefixed(b: Vec<u8>) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    v
}
impl Record {
    pub fn decode(t: &RawTapes) -> Self {
        Self {
            me: t.self_prog_id_tape,
            calls: unarchive!(Vec<CrossProgramCall>, &t.call_tape[4..]),
            events: unarchive!(Vec<CanonicalOrderedTemporalHints>, &t.event_tape[4..]),
            events_commitment: t.events_commitment_tape,
            cast_commitment: t.cast_list_commitment_tape,
            public: t.public_tape[4..].to_vec(),
            private: t.private_tape[4..].to_vec(),
        }
    }
    pub fn encode(&self) -> RawTapes {
        RawTapes {
            private_tape: prefixed(self.private.clone()),
            public_tape: prefixed(self.public.clone()),
            call_tape: prefixed(rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&self.calls).unwrap().into_vec()),
            event_tape: prefixed(rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&self.events).unwrap().into_vec()),
            self_prog_id_tape: self.me,
            events_commitment_tape: self.events_commitment,
            cast_list_commitment_tape: self.cast_commitment,
        }
    }
    pub fn cast(&self) -> Vec<Id> { self.calls.iter().map(|c| c.callee.inner()).collect::<BTreeSet<_>>().into_iter().collect() }
    /// The commitment over the events as listed.
    pub fn events_root(&self) -> Digest {
        let l: Vec<(u64, Poseidon2Hash)> = self.events.iter().map(|e| {
            let c = canon_of(&e.0);
            (u64::from_le_bytes(c.0), Poseidon2Hash(event_digest(&c.0, c.1, &c.2)))
        }).collect();
        if l.windows(2).all(|w| w[0].0 <= w[1].0) { root(&l.iter().map(|x| (x.0, x.1.inner())).collect::<Vec<_>>()) }
        // Not a canonical order: there is no definition other than the code's.
        else { simkit::guarded(|| mozak_sdk::common::merkle::merkleize(l)).map_or([0xff; 32], |h| h.inner()) }
    }
}
pub fn request(b: &[u8]) -> Request { unarchive!(Request, b) }
pub fn reply(b: &[u8]) -> Reply { unarchive!(Reply, b) }
pub fn to_bytes_request(r: &Request) -> Vec<u8> { rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(r).unwrap().into_vec() }
pub fn to_bytes_reply(r: &Reply) -> Vec<u8> { rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(r).unwrap().into_vec() }

struct Walk<'a> {
    r: &'a Record,
    cast: Vec<Id>,
    at: usize,
    emitted: usize,
    seen: Vec<bool>,
    cursor: [usize; 2],
    log: Vec<u8>,
    why: Option<String>,
    calls: usize,
}
impl Walk<'_> {
    fn refuse(&mut self, s: impl Into<String>) { self.why.get_or_insert(s.into()); }
    fn next(&mut self) -> Option<&CrossProgramCall> {
        while let Some(c) = self.r.calls.get(self.at) {
            if c.caller.inner() == self.r.me || c.callee.inner() == self.r.me { return Some(c); }
            self.at += 1;
        }
        None
    }
}
impl World for Walk<'_> {
    fn send(&mut self, to: ProgramIdentifier, q: Request) -> Reply {
        if self.why.is_some() { return Reply::default(); }
        self.calls += 1;
        let me = self.r.me;
        let Some(c) = self.next().cloned() else { self.refuse("send past the end"); return Reply::default() };
        self.at += 1;
        if c.caller.inner() != me || c.callee != to || c.callee.inner() == me { self.refuse("another message where a send is"); return Reply::default(); }
        if request(&c.argument.0) != q { self.refuse("argument"); }
        reply(&c.return_.0)
    }
    fn emit(&mut self, e: Event) {
        if self.why.is_some() { return; }
        let Some(h) = self.r.events.get(self.emitted).map(|e| e.1 as usize) else { return self.refuse("event past the end") };
        self.emitted += 1;
        if h >= self.r.events.len() || self.seen[h] { return self.refuse("hint"); }
        self.seen[h] = true;
        if canon_of(&self.r.events[h].0) != canon(&e) { self.refuse("event differs"); }
    }
    fn input(&mut self, public: bool, len: usize, _: usize, _: u64) -> Vec<u8> {
        let t = if public { &self.r.public } else { &self.r.private };
        let at = &mut self.cursor[usize::from(public)];
        let n = len.min(t.len() - *at);
        *at += n;
        t[*at - n..*at].to_vec()
    }
    fn other(&mut self, _: &Op) -> Vec<u8> { vec![] }
    fn note(&mut self, tag: u8, b: &[u8]) { self.log.extend(entry(tag, b)); }
}

/// The guest's log if the record is one the program may accept, or why not.
pub fn accept(r: &Record, s: &Script) -> Result<Vec<u8>, String> {
    let mut w = Walk { cast: r.cast(), at: 0, emitted: 0, seen: vec![false; r.events.len()], cursor: [0; 2], log: vec![], why: None, calls: 0, r };
    let mut served = 0;
    while let Some(c) = w.next().cloned() {
        w.at += 1;
        if c.caller.inner() == r.me { return Err("a call it never made".into()); }
        let caller = c.caller.inner();
        if caller != [0; 32] && !w.cast.contains(&caller) { return Err("caller is no participant".into()); }
        let (q, y) = (request(&c.argument.0), reply(&c.return_.0));
        w.log.extend(received(&caller, &q, &y));
        let out = handle(&mut w, s, &q);
        if let Some(e) = w.why { return Err(e); }
        if out != y { return Err("result differs".into()); }
        served += 1;
        if served == s.limit { break; }
    }
    if w.next().is_some() { return Err("messages left over".into()); }
    if w.emitted != r.events.len() { return Err("events left over".into()); }
    if r.events_root() != r.events_commitment { return Err("event commitment".into()); }
    if cast_root(&w.cast) != r.cast_commitment { return Err("cast list commitment".into()); }
    Ok(w.log)
}
