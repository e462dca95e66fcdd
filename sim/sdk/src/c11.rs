//! C11: guest input streams behave like files.
use std::io::{Cursor, Read, Seek, SeekFrom};

use mozak_runner::state::RawTapes;
use serde::{Deserialize, Serialize};
use simkit::{check, violate, Ctx, Info, Outcome, Prop, Rng};
use txkit::guest::{self, End};
use txkit::native::entry;
use txkit::script::{Handler, Op, Script, Shape};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Read(bool, u16),
    /// whence, offset
    Seek(bool, u8, i64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub public: Vec<u8>,
    pub private: Vec<u8>,
    /// Use a stream of its own on that tape; else the SDK's `read`.
    pub open: [bool; 2],
    pub acts: Vec<Act>,
    pub cuts: Vec<u64>,
}
fn whence(w: u8, o: i64) -> SeekFrom {
    match w % 3 { 0 => SeekFrom::Start(o as u64), 1 => SeekFrom::End(o), _ => SeekFrom::Current(o) }
}

pub struct C11;
impl Prop for C11 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C11",
            rule: "every read and seek a guest makes on its input tapes gives what `std::io::Cursor` over the tape's bytes gives",
            level: "exploration",
            quick_runs: 1500,
            thorough_runs: 40_000,
            components: &[
                ("sdk/src/mozakvm/inputtape.rs, core/ecall.rs (compiled for the VM)", "real"), ("runner VM tape calls", "real"),
                ("guest program", "scripted interpreter"), ("host", "simulated: tapes written by the simulator, machine lost and resumed"),
            ],
            assumptions: &["one reader per tape", "positions fit in the guest's 32-bit address range"],
            unit: "guest instructions",
        }
    }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let len = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(2, 5), 3..=4 => r.range(6, 60), _ => r.range(60, 400) } as usize;
        let (a, b) = (len(r), len(r));
        let (public, private) = (r.bytes(a), r.bytes(b));
        let open = [r.chance(70), r.chance(70)];
        let n = r.range(1, if thorough { 40 } else { 14 });
        let seeks = r.range(0, 60);
        let mut acts = vec![];
        for _ in 0..n {
            let p = r.chance(50);
            let l = if p { public.len() } else { private.len() } as i64;
            if open[usize::from(!p)] && r.chance(seeks) {
                let w = r.below(3) as u8;
                let around = |r: &mut Rng, c: i64| c + r.range(0, 8) as i64 - 4;
                let o = match r.below(6) {
                    0 => 0,
                    1 => around(r, l),
                    2 => around(r, -l),
                    3 => r.range(0, l as u64 + 2) as i64,
                    4 => -(r.range(0, l as u64 + 2) as i64),
                    _ => around(r, 0),
                };
                acts.push(Act::Seek(p, w, if w == 0 { o.abs() } else { o }));
            } else {
                acts.push(Act::Read(p, match r.below(5) { 0 => 0, 1 => 1, 2 => r.range(1, 4) as u16, 3 => (l as u16).saturating_add(r.below(3) as u16).saturating_sub(1), _ => r.small(l as u64 + 10) as u16 }));
            }
        }
        Case { public, private, open, acts, cuts: if r.chance(40) { vec![r.range(2, 20_000)] } else { vec![] } }
    }
    fn run(&self, c: &Case, ctx: &mut Ctx) -> Outcome {
        let mut ops: Vec<Op> = vec![];
        let mut want: Vec<Vec<u8>> = vec![];
        let mut f = [Cursor::new(c.public.clone()), Cursor::new(c.private.clone())];
        for (k, public) in [(0, true), (1, false)] {
            if c.open[k] {
                ops.push(Op::Open { public });
                want.push((f[k].get_ref().len() as u32).to_le_bytes().to_vec());
            }
        }
        for a in &c.acts {
            match *a {
                Act::Read(public, len) => {
                    ops.push(Op::Read { public, len });
                    let mut b = vec![0; usize::from(len)];
                    let n = f[usize::from(!public)].read(&mut b).unwrap();
                    if n < b.len() { ctx.fault("read at or past the end of the tape"); }
                    let mut v = vec![1];
                    v.extend((n as u32).to_le_bytes());
                    v.extend(&b[..n]);
                    want.push(v);
                }
                Act::Seek(public, w, o) => {
                    let k = usize::from(!public);
                    if !c.open[k] { continue; }
                    if w % 3 == 0 && o < 0 || o.unsigned_abs() > 1 << 30 || f[k].position() > 1 << 30 { return Ok(()); }
                    ops.push(Op::Seek { public, whence: w, offset: o });
                    want.push(match f[k].seek(whence(w, o)) {
                        Ok(p) => { if p > f[k].get_ref().len() as u64 { ctx.probe("seek past the end"); } let mut v = vec![1]; v.extend(p.to_le_bytes()); v }
                        Err(_) => { ctx.probe("seek before the start"); vec![0] }
                    });
                }
            }
        }
        ctx.nontrivial = want.iter().any(|w| w.len() > 5);
        let script = Script { direct: true, limit: 0, handlers: vec![Handler { ops: ops.clone(), reply: Shape::default() }] };
        let pre = |v: &[u8]| { let mut p = (v.len() as u32).to_le_bytes().to_vec(); p.extend(v); p };
        let empty = txkit::reference::Record { me: [1; 32], calls: vec![], events: vec![], events_commitment: [0; 32], cast_commitment: [0; 32], public: vec![], private: vec![] }.encode();
        let raw = RawTapes { public_tape: pre(&c.public), private_tape: pre(&c.private), ..empty };
        for _ in &c.cuts { ctx.fault("machine lost and resumed from a copy"); }
        let ran = guest::run(&script, raw, &c.cuts, 30_000_000);
        ctx.step(ran.steps);
        ctx.log(|| format!("{:?} {:x?} {:?}", c.acts, txkit::reference::hash(&ran.log), ran.end));
        let mut log = &ran.log[..];
        for (op, w) in ops.iter().zip(&want) {
            let e = entry(5, w);
            if log.is_empty() { violate!("stopped", "{op:?} of {:?} (tapes of {} and {} bytes) ends the guest: {:?}", ops, c.public.len(), c.private.len(), ran.end); }
            let got = &log[..(5 + u32::from_le_bytes(log[1..5].try_into().unwrap()) as usize).min(log.len())];
            check!(got == e, "bytes", "{op:?} of {:?} (tapes of {} and {} bytes) gives {:02x?}, a file gives {:02x?}", ops, c.public.len(), c.private.len(), &got[5..], w);
            log = &log[got.len()..];
        }
        check!(ran.end == End::Clean, "end", "the guest does not halt: {:?}", ran.end);
        Ok(())
    }
}
