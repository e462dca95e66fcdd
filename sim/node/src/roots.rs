//! C12: the same lists through the SDK natively, the guest in the VM and the proposer.
use mozak_cli::runner::raw_tapes_from_system_tape;
use mozak_node::block_proposer::transactions::TransactionAccumulator;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, CrossProgramCall, Poseidon2Hash, SystemTape};
use mozak_sdk::native::poseidon::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};
use mozak_sdk::native::OrderedEvents;
use plonky2::hash::hash_types::HashOut;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};
use txkit::guest::{self, End};
use txkit::reference::{self as rf, Canon};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::{native, Id, Prog, Root};

use crate::kit::{addresses, fs, pid, program, program_word, tx_aux, Proof, ADDR_END, F, PROGRAMS};

type Digest = [u8; 32];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct E {
    pub addr: u64,
    pub kind: u8,
    /// Length of the object's data; equal lengths give equal data.
    pub len: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Member {
    pub program: u8,
    /// In order of emission.
    pub events: Vec<E>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub members: Vec<Member>,
    /// Who replays in the VM and is ingested by the proposer.
    pub pick: u8,
    pub hashes: Vec<(Vec<u8>, bool)>,
    /// Trees hashed directly: addresses (ascending) and leaf numbers.
    pub trees: Vec<Vec<(u64, u8)>>,
    /// Ways to alter a list.
    pub alter: Vec<(u8, u64, u64)>,
    /// A bit of a claimed commitment to flip.
    pub flip: u16,
    pub cuts: Vec<u64>,
}

fn id(p: u8) -> Id { pid(p).0 .0 }
fn words(d: &Digest) -> [u64; 4] { [0, 1, 2, 3].map(|i| u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap())) }
fn out(d: &Digest) -> HashOut<F> { HashOut { elements: fs(words(d)) } }
fn leaf(n: u8) -> Digest { if n == 0 { [0; 32] } else { rf::hash(&[n; 8]) } }
fn native_events(v: &[Canon]) -> Digest {
    merkleize(v.iter().map(|c| {
        let e = CanonicalEvent { address: c.0.into(), type_: txkit::script::event_type(c.1), value: Poseidon2Hash(c.2) };
        (u64::from_le_bytes(c.0), e.canonical_hash())
    }).collect()).0
}
fn native_cast(v: &[Id]) -> Digest { merkleize(v.iter().enumerate().map(|(i, x)| (i as u64, Poseidon2Hash(*x))).collect()).0 }

pub struct C12;
impl Prop for C12 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C12",
            rule: "event roots, cast roots and digests from the native SDK, from the guest in the VM, from the proposer and from a textbook definition are equal; every altered list has another root and is refused by the proposer",
            level: "exploration",
            quick_runs: 900,
            thorough_runs: 40_000,
            components: &[
                ("sdk/src/common/merkle.rs, native hashing, event ordering", "real"), ("sdk compiled for the VM", "real"), ("runner VM", "real"),
                ("cli raw_tapes_from_system_tape", "real"), ("node transaction accumulator and recproofs circuits", "real, over the stand-in circuit builder"),
                ("Poseidon2 constants", "stand-in"), ("program proofs", "stub: a circuit that exposes what a program proof exposes"),
            ],
            assumptions: &["hashes do not collide", "entries are not themselves tree nodes", "addresses and identifiers are canonical field elements"],
            unit: "guest instructions",
        }
    }
    fn hang_secs(&self) -> u64 { 60 }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let most = if thorough || r.chance(10) { 39 } else { *r.pick(&[1, 3, 6, 10]) };
        let mut ps: Vec<u8> = (1..PROGRAMS).collect();
        r.shuffle(&mut ps);
        ps.truncate(r.range(1, most) as usize);
        let k = r.range(1, 8) as usize;
        let addrs = addresses(r, k, 64);
        let pick = r.u8();
        let at = usize::from(pick) % ps.len();
        let members = ps.iter().enumerate().map(|(i, p)| {
            let n = if i == at { match r.below(4) { 0 => r.below(3), 1 => r.below(6), 2 => r.below(18), _ => r.below(if thorough { 70 } else { 30 }) } } else { r.small(3) };
            Member { program: *p, events: (0..n).map(|_| E { addr: *r.pick(&addrs), kind: r.below(5) as u8, len: if r.chance(80) { r.below(9) as u16 } else { r.below(200) as u16 } }).collect() }
        }).collect();
        let hashes = (0..r.range(1, 3)).map(|_| {
            let pad = r.chance(60);
            let n = match r.below(4) { 0 => r.below(3), 1 => r.below(20), 2 => 8 * r.below(12), _ => r.below(600) } as usize;
            (r.bytes(if pad { n } else { n / 8 * 8 }), pad)
        }).collect();
        let trees = (0..r.range(0, 2)).map(|_| {
            let n = r.small(40) as usize;
            let mut v: Vec<(u64, u8)> = (0..n).map(|_| { let a = if r.chance(10) { r.u64() } else { *r.pick(&addrs) ^ r.below(4) }; (a, r.below(20) as u8) }).collect();
            v.sort_by_key(|x| x.0);
            v
        }).collect();
        Case {
            members, pick, hashes, trees,
            alter: (0..r.range(1, 4)).map(|_| (r.u8(), r.u64() >> 8, r.u64() >> 8)).collect(),
            flip: r.u64() as u16,
            cuts: if r.chance(30) { (0..2).map(|_| r.range(2, 40_000)).collect() } else { vec![] },
        }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        // Plain digests and trees: natively, in the VM, by definition.
        let mut script = Script { direct: true, limit: 0, handlers: vec![Handler::default()] };
        let mut want: Vec<u8> = vec![];
        for (b, pad) in &c.hashes {
            if !pad && b.len() % 8 != 0 { continue; }
            let d = if *pad { rf::hash_pad(b) } else { rf::hash(b) };
            let n = if *pad { poseidon2_hash_with_pad(b) } else { poseidon2_hash_no_pad(b) }.0;
            check!(n == d, "native-digest", "{} bytes, padded: {pad}: {n:02x?} instead of {d:02x?}", b.len());
            // The machine's hash call is not defined on nothing.
            if b.is_empty() && !pad { continue; }
            want.extend(native::entry(5, &d));
            script.handlers[0].ops.push(Op::Hash { bytes: b.clone(), pad: *pad });
        }
        for t in &c.trees {
            if t.len() > 60 || t.windows(2).any(|w| w[0].0 > w[1].0) { continue; }
            let v: Vec<(u64, Digest)> = t.iter().map(|x| (x.0, leaf(x.1))).collect();
            let d = rf::root(&v);
            let n = match guarded(|| merkleize(v.iter().map(|x| (x.0, Poseidon2Hash(x.1))).collect())) { Ok(n) => n.0, Err(e) => violate!("native-root", "tree over {t:?}: {e}") };
            check!(n == d, "native-root", "tree over {t:?}: {n:02x?} instead of {d:02x?}");
            want.extend(native::entry(5, &d));
            script.handlers[0].ops.push(Op::Merkle { leaves: v });
        }
        for e in c.members.iter().flat_map(|m| &m.events).take(4) {
            let data = txkit::script::fill(u64::from(e.len), usize::from(e.len % 300));
            let k: Canon = (e.addr.to_le_bytes(), e.kind % 5, rf::hash_pad(&data));
            want.extend(native::entry(5, &rf::event_digest(&k.0, k.1, &k.2)));
            script.handlers[0].ops.push(Op::EventHash { kind: k.1, address: k.0, data });
        }
        let total: usize = c.hashes.iter().map(|h| h.0.len() + 40).sum::<usize>() + c.trees.iter().map(|t| 24 + t.len() * 40).sum::<usize>();
        if total < 9000 {
            // A machine run outside any transaction: empty tapes.
            let none = serde_json::to_vec(&SystemTape::default()).unwrap();
            let raw = raw_tapes_from_system_tape(Some(&none[..]), pid(1));
            let ran = guest::run(&script, raw, &[], 8_000_000);
            ctx.step(ran.steps);
            check!(ran.end == End::Clean, "guest", "digests in the VM: {:?}", ran.end);
            let mut body = ran.log;
            // The last note is the handler's reply.
            body.truncate(body.len().saturating_sub(13));
            check!(body == want, "guest-digest", "digests and roots in the VM {body:02x?}, instead of {want:02x?}");
        }

        // A transaction in which the members emit their events.
        let mut members: Vec<&Member> = vec![];
        for m in &c.members {
            if m.program != 0 && m.program < PROGRAMS && members.iter().all(|o| o.program != m.program) { members.push(m); }
        }
        if members.is_empty() { return Ok(()); }
        members.sort_by_key(|m| id(m.program));
        let cast: Vec<Id> = members.iter().map(|m| id(m.program)).collect();
        let shape = Shape::default();
        let data = |e: &E| Shape { kind: 2, len: e.len % 400, data: false };
        let tx = txkit::Tx {
            programs: members.iter().map(|m| Prog {
                id: id(m.program),
                script: Script { direct: false, limit: 0, handlers: vec![Handler { ops: m.events.iter().map(|e| Op::Emit { kind: e.kind, address: (e.addr % ADDR_END).to_le_bytes(), owner: [0; 32], shape: data(e) }).collect(), reply: shape.clone() }] },
            }).collect(),
            roots: c.members.iter().filter(|m| cast.contains(&id(m.program))).map(|m| Root { to: id(m.program), method: 0, shape: shape.clone(), salt: 0 }).collect(),
        };
        // Members called twice (the minimiser can do that) would emit twice.
        if tx.roots.len() != tx.programs.len() { return Ok(()); }
        let at = usize::from(c.pick) % members.len();
        let me = members[at];
        let list: Vec<Canon> = { let mut v: Vec<Canon> = me.events.iter().map(|e| ((e.addr % ADDR_END).to_le_bytes(), e.kind % 5, rf::hash_pad(&native::event_data(&data(e), 0)))).collect(); rf::sort_canon(&mut v); v };
        let want_ev = if list.is_empty() { [0; 32] } else { rf::events_root(&list) };
        let want_cast = rf::cast_root(&cast);

        let taped = { let _one = native::lock(); native::run(&tx, || ()) };
        let (tape, _) = match taped { Ok(x) => x, Err(e) => violate!("native-run", "{e}") };
        let n = OrderedEvents::new(me.events.iter().map(|e| txkit::script::event_of(e.kind, (e.addr % ADDR_END).to_le_bytes(), [0; 32], native::event_data(&data(e), 0))).collect()).canonical_hash().0;
        check!(n == want_ev, "native-root", "events {list:x?}: {n:02x?} instead of {want_ev:02x?}");
        let json = serde_json::to_vec(&tape).unwrap();
        let raw = match guarded(|| raw_tapes_from_system_tape(Some(&json[..]), pid(me.program))) { Ok(r) => r, Err(e) => violate!("derive", "{e}") };
        check!(raw.events_commitment_tape == want_ev, "claimed-root", "events {list:x?}: {:02x?} instead of {want_ev:02x?}", raw.events_commitment_tape);
        check!(raw.cast_list_commitment_tape == want_cast, "claimed-cast", "{} programs: {:02x?} instead of {want_cast:02x?}", cast.len(), raw.cast_list_commitment_tape);
        let record = rf::Record::decode(&raw);
        check!(record.events.iter().map(|e| rf::canon_of(&e.0)).eq(list.iter().copied()), "order", "events {:?} instead of {list:x?}", record.events);
        check!(record.cast() == cast, "cast", "{:x?} instead of {cast:x?}", record.cast());
        let _: &Vec<CrossProgramCall> = &record.calls;

        // The guest computes the roots itself and stops when they are not those claimed.
        let script = tx.script(&id(me.program)).unwrap();
        for _ in &c.cuts { ctx.fault("machine lost and resumed from a copy"); }
        let ran = guest::run(script, raw.clone(), &c.cuts, 8_000_000);
        ctx.step(ran.steps);
        check!(ran.end == End::Clean, "guest-root", "{} events, {} programs, in the VM: {:?}", list.len(), cast.len(), ran.end);
        let mut bad = raw.clone();
        let side = if c.flip & 256 == 0 { &mut bad.events_commitment_tape } else { &mut bad.cast_list_commitment_tape };
        side[usize::from(c.flip >> 3) % 32] ^= 1 << (c.flip & 7);
        ctx.fault("claimed root altered");
        let ran = guest::run(script, bad, &[], 8_000_000);
        check!(matches!(ran.end, End::Refused(_)), "guest-blind", "{} events, {} programs, a claimed root altered: {:?}", list.len(), cast.len(), ran.end);

        // The proposer computes the roots itself and takes only a proof that carries them.
        let prog = program(me.program);
        let call = fs([1, 2, 3, 4]);
        let prove = |ev: &Digest, some: bool, cast: &Digest| prog.prove(some.then(|| out(ev)), call, out(cast));
        let offer = |proof: &Proof, cast: &[Id], at: usize, evs: &[Canon]| {
            let cast: Vec<_> = cast.iter().map(|i| txkit::pid(i)).collect();
            let evs: Vec<CanonicalEvent> = evs.iter().map(|c| CanonicalEvent { address: c.0.into(), type_: txkit::script::event_type(c.1), value: Poseidon2Hash(c.2) }).collect();
            let mut acc = TransactionAccumulator::new(tx_aux());
            guarded(|| acc.ingest_program(at, &prog.circuit.verifier_only, proof, &cast, &evs, call).map(|x| x.1).map_err(|e| e.to_string()))
        };
        let honest = prove(&want_ev, !list.is_empty(), &want_cast);
        match offer(&honest, &cast, at, &list) {
            Ok(Ok(done)) => check!(done == (cast.len() == 1), "proposer-complete", "{} programs, one arrived: complete={done}", cast.len()),
            e => violate!("proposer-root", "events {list:x?}, {} programs: {e:?}", cast.len()),
        }

        // Other lists have other roots.
        for (kind, a, b) in &c.alter {
            let (a, b) = (*a as usize, *b as usize);
            let n = list.len();
            let mut evs = list.clone();
            let mut cst = cast.clone();
            let mut place = at;
            let name = match kind % 8 {
                0 if n > 0 => { evs.remove(a % n); "event dropped" }
                1 if n > 0 => { let e = &mut evs[a % n]; e.2 = rf::hash(&[b as u8; 16]); "event value changed" }
                2 if n > 0 => { let e = &mut evs[a % n]; e.1 = (e.1 + 1 + (b % 4) as u8) % 5; "event kind changed" }
                3 if n > 0 => { let e = &mut evs[a % n]; e.0 = (b as u64 % ADDR_END).to_le_bytes(); "event address changed" }
                4 => { evs.push((if n > 0 { list[a % n].0 } else { (a as u64 % ADDR_END).to_le_bytes() }, (b % 5) as u8, if b % 7 == 0 && n > 0 { list[b % n].2 } else { leaf((b % 5) as u8) })); "event added" }
                5 if cst.len() > 1 => { let d = (at + 1 + a % (cst.len() - 1)) % cst.len(); cst.remove(d); if d < at { place -= 1; } "participant dropped" }
                6 => { let p = (1..PROGRAMS).map(|i| 1 + (i + a as u8 % PROGRAMS) % (PROGRAMS - 1)).map(id).find(|p| !cst.contains(p)); let Some(p) = p else { continue }; let d = b % (cst.len() + 1); cst.insert(d, p); if d <= at { place += 1; } "participant added" }
                7 if cst.len() > 1 => { let (i, j) = (a % cst.len(), b % cst.len()); cst.swap(i, j); place = cst.iter().position(|x| *x == cast[at]).unwrap(); "participants reordered" }
                _ => continue,
            };
            rf::sort_canon(&mut evs);
            if evs == list && cst == cast { continue; }
            ctx.fault(name);
            let (e, k) = (if evs.is_empty() { [0; 32] } else { native_events(&evs) }, native_cast(&cst));
            check!((e, k) != (want_ev, want_cast), "collision", "{name}: {evs:x?} by {cst:x?} has the roots of {list:x?} by {cast:x?}");
            match offer(&honest, &cst, place, &evs) {
                Ok(Ok(_)) => violate!("proposer-collision", "{name}: {evs:x?} by {} programs taken with the proof for {list:x?} by {}", cst.len(), cast.len()),
                Ok(Err(_)) => {}
                Err(x) if x.contains("set twice with different values") => {}
                Err(x) => violate!("proposer-panics", "{name}: {x}"),
            }
            // And the altered list, honestly proved, is as good as the first.
            match offer(&prove(&e, !evs.is_empty(), &k), &cst, place, &evs) {
                Ok(Ok(_)) => {}
                x => violate!("proposer-root", "{name}: events {evs:x?}, {} programs: {x:?}", cst.len()),
            }
        }
        let _ = program_word;
        ctx.nontrivial = list.len() > 1 || cast.len() > 1;
        ctx.log(|| format!("{} events {:x?}, {} programs {:x?}", list.len(), &want_ev[..4], cast.len(), &want_cast[..4]));
        if list.len() > 16 { ctx.probe("more than 16 events"); }
        if list.is_empty() { ctx.probe("no events"); }
        if cast.len() > 8 { ctx.probe("more than 8 programs"); }
        if list.windows(2).any(|w| w[0] == w[1]) { ctx.probe("the same event twice"); }
        Ok(())
    }
}
