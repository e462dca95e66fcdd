//! C07: every participant of a recorded transaction replays it.
use mozak_cli::runner::raw_tapes_from_system_tape;
use mozak_runner::state::RawTapes;
use serde::{Deserialize, Serialize};
use simkit::{check, guarded, violate, Ctx, Info, Outcome, Prop, Rng};
use txkit::gen::{tx, Want};
use txkit::guest::{self, End};
use txkit::native::{self, Account};
use txkit::script::{Op, Shape};
use txkit::{pid, reference, Id, Tx};

use crate::io::{quirks, Quirks, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tx: Tx,
    pub quirks: Quirks,
    /// Machines are lost at these steps and resumed from an earlier copy.
    pub cuts: Vec<u64>,
}

/// Records the transaction natively; the stored form of its tape.
pub fn record(tx: &Tx) -> Result<(Vec<u8>, mozak_sdk::common::types::SystemTape, Account), String> {
    let _one = native::lock();
    let (tape, account) = native::run(tx, || ())?;
    let json = serde_json::to_string_pretty(&tape).map_err(|e| e.to_string())?.into_bytes();
    Ok((json, tape, account))
}
pub fn derive(json: &[u8], q: &Quirks, id: &Id, ctx: &mut Ctx) -> Result<RawTapes, String> {
    let mut rd = Reader::new(json, q);
    let r = guarded(|| raw_tapes_from_system_tape(Some(&mut rd), pid(id)));
    rd.report(ctx);
    r
}
pub fn callees(a: &Account) -> Vec<Id> { a.calls.iter().map(|c| c.1).collect::<std::collections::BTreeSet<_>>().into_iter().collect() }

/// A program is called again while one of its own calls is being served.
pub fn reentrant(tx: &Tx) -> bool {
    fn reach(tx: &Tx, from: &Id, goal: &Id, seen: &mut Vec<Id>) -> bool {
        let Some(s) = tx.script(from) else { return false };
        s.handlers.iter().flat_map(|h| &h.ops).any(|o| match o {
            txkit::script::Op::Send { to, .. } => *to == *goal || (!seen.contains(to) && { seen.push(*to); reach(tx, to, goal, seen) }),
            _ => false,
        })
    }
    tx.programs.iter().any(|p| reach(tx, &p.id, &p.id, &mut vec![]))
}

pub struct C07;
impl Prop for C07 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C07",
            rule: "every participant's guest, run in the VM on the tapes derived from the recorded transaction, reports the same calls, results and input bytes as the native run and halts cleanly",
            level: "exploration",
            quick_runs: 1200,
            thorough_runs: 12_000,
            components: &[
                ("sdk/src/native (recording)", "real"), ("sdk/src/mozakvm (replay, compiled for the VM)", "real"),
                ("cli/src/runner.rs raw_tapes_from_system_tape", "real"), ("runner VM", "real"), ("rkyv, serde_json", "real"),
                ("Poseidon2 constants", "stand-in"), ("program identifiers", "chosen by the simulator"),
                ("guest programs", "one interpreter, scripted per program"), ("disk", "simulated reader"),
            ],
            assumptions: &["no program is re-entered while one of its own calls is being served", "guests take their calls with `call_receive` until none is left"],
            unit: "guest instructions",
        }
    }
    fn hang_secs(&self) -> u64 { 60 }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let t = thorough && r.chance(30);
        let w = Want {
            programs: if t { 10 } else { 6 },
            ops: if t { 12 } else { 6 },
            roots: if t { 8 } else { 4 },
            len: *r.pick(&[8, 40, 300]),
            acyclic: true,
            identities: false,
            budget: if t { 70 } else { 30 },
        };
        let mut tx = tx(r, &w);
        if r.chance(if thorough { 6 } else { 3 }) {
            // Long records: one program emits hundreds of events, or is called dozens of times.
            let id = tx.programs[0].id;
            let n = tx.programs.len();
            let (many, calls) = if r.chance(60) { (r.range(20, 60), r.range(5, 9)) } else { (1, r.range(40, 80)) };
            let last = &mut tx.programs[n - 1];
            let na = r.range(1, 8) as usize;
            let addr = txkit::gen::addresses(r, na);
            let shape = Shape { kind: 1, len: 0, data: true };
            last.script.handlers[0].ops = (0..many).map(|_| Op::Emit { kind: r.below(5) as u8, address: *r.pick(&addr), owner: [0; 32], shape: shape.clone() }).collect();
            let to = if r.chance(50) { last.id } else { id };
            tx.roots = (0..calls).map(|_| txkit::Root { to, method: 0, shape: shape.clone(), salt: r.u64() }).collect();
        }
        Case { tx, quirks: quirks(r, false), cuts: if r.chance(40) { (0..r.range(1, 3)).map(|_| r.range(2, 60_000)).collect() } else { vec![] } }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        if reentrant(&c.tx) || c.tx.programs.iter().any(|p| p.id == [0; 32]) { return Ok(()); }
        let (json, _, account) = match record(&c.tx) {
            Ok(x) => x,
            Err(e) => violate!("native run", "recording fails: {e}"),
        };
        if account.overflow { return Ok(()); }
        ctx.nontrivial = account.calls.len() > 1 && (!account.events.is_empty() || !account.inputs.is_empty());
        if account.max_depth > 2 { ctx.probe("calls nested three deep or more"); }
        if account.calls.len() > 10 { ctx.probe("more than ten calls"); }
        if account.events.len() > 256 { ctx.probe("more than 256 events"); }
        if account.events.len() > 5 { ctx.probe("more than five events"); }
        ctx.log(|| format!("{} calls {} events, tape {:x?}", account.calls.len(), account.events.len(), reference::hash(&json[..json.len().min(4000)])));
        for id in callees(&account) {
            let Some(script) = c.tx.script(&id) else { continue };
            let raw = match derive(&json, &c.quirks, &id, ctx) {
                Ok(r) => r,
                Err(e) => violate!("derive", "raw tapes: {e}"),
            };
            let mine = account.calls.iter().filter(|k| k.0 == id || k.1 == id).count();
            if mine < account.calls.len() { ctx.probe("record with calls between other programs"); }
            for _ in &c.cuts { ctx.fault("machine lost and resumed from a copy"); }
            let ran = guest::run(script, raw, &c.cuts, 6_000_000);
            ctx.step(ran.steps);
            ctx.log(|| format!("{:02x?} {:?} {} {:x?}", &id[..4], ran.end, ran.steps, reference::hash(&ran.log)));
            if let End::Refused(e) = &ran.end { violate!("refused", "program {:02x?}.. refuses the honest record after {} of its calls: {e}", &id[..4], mine); }
            check!(ran.end == End::Clean, "endless", "program {:02x?}.. does not end", &id[..4]);
            let want = account.log_of(&id);
            check!(ran.log == want, "log", "program {:02x?}.. saw {:02x?}, natively {:02x?}", &id[..4], clip(&ran.log), clip(&want));
        }
        Ok(())
    }
}
pub fn clip(b: &[u8]) -> &[u8] { &b[..b.len().min(200)] }
