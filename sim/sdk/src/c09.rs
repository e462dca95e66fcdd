//! C09 (native attribution) and C10 (storage of recorded transactions).
use std::collections::BTreeMap;

use mozak_cli::runner::deserialize_system_tape;
use mozak_sdk::common::types::SystemTape;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};
use txkit::gen::{tx, Want};
use txkit::native::{self, Account};
use txkit::reference::{canon, canon_of, hash, hash_pad, kind_no, reply, request, sort_canon, Record};
use txkit::{pid, Id, Tx};

use crate::c07::{callees, record};
use crate::io::{quirks, Quirk, Quirks, Reader};

/// What one program did and was given, read off a tape.
fn compare(tape: &SystemTape, a: &Account, what: &str) -> Outcome {
    let w = &tape.call_tape.writer;
    check!(w.len() == a.calls.len(), "calls", "{what}: {} calls listed, {} made", w.len(), a.calls.len());
    for (k, (m, (from, to, q, y))) in w.iter().zip(&a.calls).enumerate() {
        check!(m.caller.inner() == *from, "caller", "{what}: call {k} was made by {:02x?}.., the tape says {:02x?}", &from[..6], &m.caller.inner()[..6]);
        check!(m.callee.inner() == *to, "callee", "{what}: call {k} was made to {:02x?}.., the tape says {:02x?}", &to[..6], &m.callee.inner()[..6]);
        let Some(y) = y else { violate!("call", "call {k} never returned") };
        let got = guarded(|| (request(&m.argument.0), reply(&m.return_.0)));
        check!(got.as_ref().is_ok_and(|g| g.0 == *q), "argument", "{what}: call {k} has argument {:?}, not {q:?}", got.map(|g| g.0));
        check!(got.as_ref().is_ok_and(|g| g.1 == *y), "result", "{what}: call {k} has result {:?}, not {y:?}", got.map(|g| g.1));
    }
    let mut events: BTreeMap<Id, Vec<_>> = BTreeMap::new();
    for (id, e) in &a.events { events.entry(*id).or_default().push(e.clone()); }
    for (id, o) in &tape.event_tape.writer {
        let id = id.inner();
        let t = o.get_temporal_order_canonical_hints();
        let c = o.get_canonical_order_temporal_hints();
        let mine = events.remove(&id).unwrap_or_default();
        check!(t.iter().map(|x| &x.0).eq(&mine), "events", "{what}: program {:02x?}.. emitted {:?}, the tape has {:?}", &id[..6], mine, t);
        let n = mine.len();
        check!(c.len() == n, "canonical", "{what}: {} events in canonical order, {n} emitted", c.len());
        // t[k].1: where the k-th in canonical order was emitted; c[k].1: where the k-th emitted is listed.
        let (mut seen, mut sorted) = (vec![false; n], vec![]);
        for k in 0..n {
            let (to, back) = (t[k].1 as usize, c[k].1 as usize);
            check!(to < n && back < n, "hints", "{what}: hints {to} and {back} with {n} events");
            check!(!std::mem::replace(&mut seen[to], true), "hints", "{what}: event {to} listed twice in canonical order");
            check!(c[to].1 as usize == k && t[back].1 as usize == k, "hints", "{what}: hint lists are not inverse at {k}: {:?} {:?}", t.iter().map(|x| x.1).collect::<Vec<_>>(), c.iter().map(|x| x.1).collect::<Vec<_>>());
            check!(canon_of(&c[k].0) == canon(&mine[to]), "canonical", "{what}: canonical entry {k} is {:?}, event {to} is {:?}", c[k].0, mine[to]);
            sorted.push(canon_of(&c[k].0));
        }
        let mut s = sorted.clone();
        sort_canon(&mut s);
        check!(sorted.iter().map(|x| u64::from_le_bytes(x.0)).eq(s.iter().map(|x| u64::from_le_bytes(x.0))), "order", "{what}: canonical order of {:02x?}.. is not by address: {:02x?}", &id[..6], sorted.iter().map(|x| x.0).collect::<Vec<_>>());
    }
    check!(events.is_empty(), "events", "{what}: events of {:02x?} are not on the tape", events.keys().map(|k| &k[..6]).collect::<Vec<_>>());
    for (public, t) in [(true, &tape.public_input_tape.writer), (false, &tape.private_input_tape.writer)] {
        let mut want: BTreeMap<Id, Vec<u8>> = a.inputs.iter().filter(|x| x.0 .1 == public && !x.1.is_empty()).map(|x| (x.0 .0, x.1.clone())).collect();
        for (id, b) in t {
            let w = want.remove(&id.inner()).unwrap_or_default();
            check!(b.0 == w, "input", "{what}: {} input of {:02x?}.. is {:02x?}, written was {:02x?}", if public { "public" } else { "private" }, &id.inner()[..6], b.0, w);
        }
        check!(want.is_empty(), "input", "{what}: input of {:02x?} is not on the tape", want.keys().map(|k| &k[..6]).collect::<Vec<_>>());
    }
    Ok(())
}
fn tape_digest(json: &[u8]) -> [u8; 32] {
    // Maps have no order in the stored form.
    let mut s = json.to_vec();
    s.sort_unstable();
    hash(&s[..s.len().min(3000)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Native {
    pub tx: Tx,
}
pub struct C09;
impl Prop for C09 {
    type Case = Native;
    fn info(&self) -> Info {
        Info {
            id: "C09",
            rule: "the system tape of a native run equals an account kept by the simulated programs themselves",
            level: "exploration",
            quick_runs: 20000,
            thorough_runs: 200_000,
            components: &[("sdk/src/native, common/system.rs, common/types", "real"), ("rkyv", "real"), ("programs", "scripted"), ("Poseidon2 constants", "stand-in")],
            assumptions: &["programs run on one thread", "calls return"],
            unit: "calls",
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Native {
        let w = Want { programs: 7, ops: if thorough { 12 } else { 7 }, roots: 5, len: *r.pick(&[8, 60, 300]), acyclic: r.chance(30), identities: r.chance(40), budget: 60 };
        Native { tx: tx(r, &w) }
    }
    fn run(&self, c: &Native, ctx: &mut Ctx) -> Outcome {
        if c.tx.programs.iter().any(|p| p.id == [0; 32]) || c.tx.roots.iter().any(|r| r.to == [0; 32]) { return Ok(()); }
        let (json, tape, a) = match record(&c.tx) {
            Ok(x) => x,
            Err(e) => violate!("native run", "recording fails: {e}"),
        };
        ctx.step(a.calls.len() as u64);
        ctx.nontrivial = a.calls.len() > 1;
        if a.max_depth > 5 { ctx.probe("nested more than five deep"); }
        if a.calls.iter().any(|x| x.0 == x.1) { ctx.probe("a program calls itself"); }
        ctx.log(|| format!("{} {} {:x?}", a.calls.len(), a.events.len(), tape_digest(&json)));
        compare(&tape, &a, "native tape")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Loss {
    None,
    /// All bytes arrive, then the reader fails.
    FailsAtEnd,
    /// The file ends this many bytes short.
    Truncated(u32),
    /// The reader fails along the way.
    Fails,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Disk {
    pub tx: Tx,
    /// Through `dump_proving_files` and a real file.
    pub dump: bool,
    pub reads: Vec<(Loss, Quirks)>,
}
pub struct C10;
impl Prop for C10 {
    type Case = Disk;
    fn info(&self) -> Info {
        Info {
            id: "C10",
            rule: "a system tape stored and read back through faulty readers equals the original and gives the same raw tapes; truncated or failing reads are errors",
            level: "exploration",
            quick_runs: 10000,
            thorough_runs: 100_000,
            components: &[
                ("sdk SystemTape serde, dump_proving_files", "real"), ("cli deserialize_system_tape, raw_tapes_from_system_tape", "real"), ("serde_json, rkyv", "real"),
                ("serde-hex", "stand-in"), ("reader", "simulated"), ("Poseidon2 constants", "stand-in"),
            ],
            assumptions: &["bytes that are read are the bytes that were written"],
            unit: "loads",
        }
    }
    fn gen(&self, r: &mut Rng, _: bool) -> Disk {
        let w = Want { programs: 5, ops: 6, roots: 4, len: *r.pick(&[8, 60, 300]), acyclic: r.chance(50), identities: r.chance(20), budget: 30 };
        let tx = tx(r, &w);
        let reads = (0..r.range(1, 4)).map(|_| {
            let l = match r.below(4) {
                0 => Loss::Truncated(1 + match r.below(3) { 0 => r.below(6), 1 => r.below(200), _ => r.below(100_000) } as u32),
                1 => if r.chance(40) { Loss::FailsAtEnd } else { Loss::Fails },
                _ => Loss::None,
            };
            let q = quirks(r, matches!(l, Loss::Fails));
            (l, q)
        }).collect();
        Disk { tx, dump: r.chance(10), reads }
    }
    fn run(&self, c: &Disk, ctx: &mut Ctx) -> Outcome {
        if c.tx.programs.iter().any(|p| p.id == [0; 32]) || c.tx.roots.iter().any(|r| r.to == [0; 32]) { return Ok(()); }
        let (json, tape, a) = if c.dump {
            let _one = native::lock();
            let dir = std::env::temp_dir().join(format!("sim-c10-{}-{:x}", std::process::id(), ctx.hash_seed));
            std::fs::create_dir_all(&dir).expect("scratch directory");
            let home = std::env::current_dir().expect("cwd");
            let r = native::run(&c.tx, || {
                std::env::set_current_dir(&dir).expect("cwd");
                let r = guarded(mozak_sdk::native::dump_proving_files);
                std::env::set_current_dir(&home).expect("cwd");
                r.expect("dump");
            });
            let bytes = std::fs::read(dir.join("out/tape.json"));
            for f in ["out/tape.json", "out/tape.debug"] { let _ = std::fs::remove_file(dir.join(f)); }
            let _ = std::fs::remove_dir(dir.join("out"));
            let _ = std::fs::remove_dir(&dir);
            ctx.probe("dumped to a file");
            match (r, bytes) {
                (Ok((t, a)), Ok(b)) => (b, t, a),
                (r, b) => violate!("dump", "saving fails: {:?} {:?}", r.err(), b.err()),
            }
        } else {
            match record(&c.tx) { Ok(x) => x, Err(e) => violate!("native run", "recording fails: {e}") }
        };
        ctx.nontrivial = !a.calls.is_empty();
        compare(&tape, &a, "original")?;
        let plain = Quirks { list: vec![], rest: u16::MAX };
        let ids = { let mut v = callees(&a); v.push([3; 32]); v };
        let mut want = vec![];
        for id in &ids {
            match crate::c07::derive(&json, &plain, id, ctx) { Ok(r) => want.push(r), Err(e) => violate!("derive", "raw tapes: {e}") }
        }
        for (loss, q) in &c.reads {
            ctx.step(1);
            let end = match loss {
                Loss::Truncated(n) => { ctx.fault("truncated file"); json.len().saturating_sub(*n as usize) }
                _ => json.len(),
            };
            let mut rd = Reader::new(&json[..end], q);
            rd.bad_end = matches!(loss, Loss::FailsAtEnd);
            let got = guarded(|| deserialize_system_tape(&mut rd));
            rd.report(ctx);
            let failed = rd.failed;
            ctx.log(|| format!("{loss:?} {} {:x?}", got.as_ref().is_ok_and(|g| g.is_ok()), tape_digest(&json[..end])));
            match got {
                Err(e) => violate!("load", "loading panics: {e}"),
                Ok(Err(e)) => check!(failed || end < json.len(), "load", "loading an intact tape fails: {e}"),
                Ok(Ok(t)) => {
                    check!(!failed, "load", "the reader failed but a tape is loaded");
                    check!(end == json.len(), "truncated", "{end} of {} bytes load without an error", json.len());
                    compare(&t, &a, "loaded tape")?;
                    for (id, w) in ids.iter().zip(&want) {
                        let g = match crate::c07::derive(&json, q, id, ctx) { Ok(g) => g, Err(e) => violate!("derive", "raw tapes: {e}") };
                        let f = |r: &mozak_runner::state::RawTapes| (r.private_tape.clone(), r.public_tape.clone(), r.call_tape.clone(), r.event_tape.clone(), r.events_commitment_tape, r.cast_list_commitment_tape, r.self_prog_id_tape);
                        check!(f(&g) == f(w), "raw tapes", "raw tapes of {:02x?}.. differ when read with {q:?}", &id[..6]);
                    }
                }
            }
        }
        // The raw tapes say what the tape says.
        for (id, w) in ids.iter().zip(&want) {
            let r = Record::decode(w);
            check!(r.me == *id, "raw tapes", "own identity");
            check!(r.calls == tape.call_tape.writer, "raw tapes", "call tape");
            let mine = tape.event_tape.writer.get(&pid(id)).map(|o| o.get_canonical_order_temporal_hints()).unwrap_or_default();
            check!(r.events == mine, "raw tapes", "event tape");
            for (public, b) in [(true, &r.public), (false, &r.private)] {
                let i = a.inputs.get(&(*id, public)).cloned().unwrap_or_default();
                check!(*b == i, "raw tapes", "input tape");
            }
        }
        Ok(())
    }
}
const _: (fn(mozak_sdk::common::types::EventType) -> u8, fn(&[u8]) -> [u8; 32], fn(u16) -> Quirk) = (kind_no, hash_pad, Quirk::Short);
