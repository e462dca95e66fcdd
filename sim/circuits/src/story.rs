//! What a set of accepted tables says happened, and whether the machine does that.
use std::collections::{BTreeMap, HashMap};

use mozak_circuits::sim::{Side, System, Tables, F};
use plonky2::field::types::{Field, PrimeField64};

use crate::asm::{Seg, Tapes};
use crate::model::Model;

/// Where the things a story is told with are.
pub struct Places {
    pub registers: usize,
    pub memory: usize,
    pub skeleton: usize,
    /// lookups whose answers are recomputed
    pub answers: Vec<usize>,
    /// tables of bits and powers of two
    pub bits: [usize; 2],
}
impl Places {
    pub fn new(s: &System) -> Self {
        let last = |n: &str| {
            let k = s.kind(n);
            (0..s.lookups.len()).filter(|l| s.lookups[*l].iter().any(|x| x.kind as usize == k)).collect::<Vec<_>>()
        };
        let wide = |n: &str, w: usize| *last(n).iter().find(|l| s.lookups[**l][0].columns.len() == w).unwrap_or_else(|| panic!("no lookup into {n}"));
        let cpu = s.kind("Cpu");
        let from_cpu = |n: &str| *last(n).iter().find(|l| s.lookups[**l].iter().any(|x| x.kind as usize == cpu)).unwrap_or_else(|| panic!("no lookup of {n}"));
        let u8s = *last("RangeCheckU8").first().unwrap();
        Places {
            registers: wide("Register", 4),
            memory: wide("Memory", 5),
            skeleton: wide("CpuSkeleton", 4),
            answers: vec![from_cpu("RangeCheck"), u8s, from_cpu("Xor"), from_cpu("Bitshift")],
            bits: [s.kind("Xor"), s.kind("Bitshift")],
        }
    }
}

fn rows(t: &Tables, side: &Side) -> Vec<(Vec<u64>, F)> {
    let r = &t[side.kind as usize];
    (0..r.len()).filter_map(|i| {
        let (t, f) = side.at(&r[i], &r[(i + 1) % r.len()]);
        (f != F::ZERO).then(|| (t.iter().map(F::to_canonical_u64).collect(), f))
    }).collect()
}

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub pc: u64,
    pub new_pc: u64,
    pub halt: u64,
    pub writes: Vec<(u64, u64)>,
    pub stores: Vec<(u64, u64)>,
}

/// A lie about how many bytes a device has given.
pub const READ_SIZE: &str = "read-size";

/// Reads of the program's own id that disagree.
pub const SELF_ID: &str = "self-id";
/// A commitment's bytes in another order than the public ones.
pub const COMMITMENT_ORDER: &str = "commitment-order";
/// Registers that do not start out as nothing.
pub const REGISTER_INIT: &str = "register-init";

pub struct Story {
    /// What the registers hold at first.
    pub start: Vec<(u64, u64)>,
    pub steps: Vec<(u64, Step)>,
    /// Bytes from the devices, per device in table order: (clock, bytes).
    pub tapes: Vec<Vec<(u64, Vec<u8>)>>,
}
pub const DEVICES: [(&str, u32); 7] = [
    ("StorageDevicePrivate", 2), ("StorageDevicePublic", 4), ("CallTape", 5), ("EventTape", 6),
    ("EventsCommitmentTape", 7), ("CastListCommitmentTape", 8), ("SelfProgIdTape", 9),
];

pub fn story(s: &System, p: &Places, t: &Tables) -> Result<Story, String> {
    let skeleton = s.kind("CpuSkeleton");
    let mut at: HashMap<u64, usize> = HashMap::new();
    let mut steps: Vec<(u64, Step)> = vec![];
    for side in s.lookups[p.skeleton].iter().filter(|x| x.kind as usize == skeleton) {
        for (x, _) in rows(t, side) {
            if at.insert(x[0], steps.len()).is_some() { return Err(format!("two steps at clock {}", x[0])); }
            steps.push((x[0], Step { pc: x[1], new_pc: x[2], halt: x[3], ..Step::default() }));
        }
    }
    let register = s.kind("Register");
    for side in s.lookups[p.registers].iter().filter(|x| x.kind as usize == register) {
        for (x, _) in rows(t, side) {
            if x[1] != 2 { continue; }
            let Some(i) = at.get(&x[0]) else { return Err(format!("register {} written at clock {}, when nothing runs", x[2], x[0])) };
            steps[*i].1.writes.push((x[2], x[3]));
        }
    }
    let memory = s.kind("Memory");
    for side in s.lookups[p.memory].iter().filter(|x| x.kind as usize == memory) {
        for (x, _) in rows(t, side) {
            if x[1] == 0 { continue; }
            let Some(i) = at.get(&x[0]) else { return Err(format!("address {:#x} written at clock {}, when nothing runs", x[3], x[0])) };
            steps[*i].1.stores.push((x[3], x[4]));
        }
    }
    let tapes = DEVICES.iter().map(|(n, _)| {
        let k = s.kind(n);
        let mut v: Vec<(u64, Vec<u8>)> = vec![];
        for side in s.lookups[p.memory].iter().filter(|x| x.kind as usize == k) {
            for (x, _) in rows(t, side) {
                match v.last_mut() { Some(l) if l.0 == x[0] => l.1.push(x[4] as u8), _ => v.push((x[0], vec![x[4] as u8])) }
            }
        }
        v.sort_by_key(|x| x.0);
        v
    }).collect();
    let init = s.kind("RegisterInit");
    let start = s.lookups.iter().filter(|l| l[0].columns.len() == 4).flat_map(|l| l.iter().filter(|x| x.kind as usize == init)).flat_map(|side| rows(t, side)).filter(|(x, _)| x[3] != 0 && x[2] != 0).map(|(x, _)| (x[2], x[3])).collect();
    Ok(Story { steps, tapes, start })
}

/// Runs the reference machine along a story; an error says where the story is not the machine's.
/// Whether the machine does what a story says.
pub fn verdict(entry: u32, segs: &[Seg], known: &[Vec<u8>; 2], s: &Story) -> Result<(), (&'static str, String)> {
    let r = truth(entry, segs, known, s, &[]);
    if r.is_err() && !s.start.is_empty() {
        if let Some((r, v)) = s.start.iter().find(|x| x.1 >> 32 != 0) { return Err((REGISTER_INIT, format!("register {r} starts out as {v:#x}"))); }
        truth(entry, segs, known, s, &s.start)?;
        let (r, v) = s.start[0];
        return Err((REGISTER_INIT, format!("register {r} starts out as {v:#x}")));
    }
    r
}
fn truth(entry: u32, segs: &[Seg], known: &[Vec<u8>; 2], s: &Story, start: &[(u64, u64)]) -> Result<(), (&'static str, String)> {
    let all = |i: usize| s.tapes[i].iter().flat_map(|x| x.1.iter().copied()).collect::<Vec<u8>>();
    let tapes = Tapes {
        private: all(0), public: all(1), call: all(2), event: all(3),
        events_commitment: known[0].clone(), cast_commitment: known[1].clone(), self_id: vec![],
    };
    let mut m = Model::load(entry, segs, &tapes);
    let mut regs = [0u64; 32];
    for (r, v) in start {
        if *r > 31 { return Err(("register", format!("register {r} starts out as {v:#x}"))); }
        regs[*r as usize] = *v;
        m.regs[*r as usize] = *v as u32;
    }
    let mut id: Vec<u8> = vec![];
    let mut changed = None;
    for (n, (clk, st)) in s.steps.iter().enumerate() {
        if m.halted { return Err(("past-halt", format!("step {n}: the machine has halted"))); }
        if st.pc != u64::from(m.pc) { return Err(("pc", format!("step {n} runs {:#x}, the machine is at {:#x}", st.pc, m.pc))); }
        // Nothing says what the program's own id is, so every read may say so.
        if let Some((_, b)) = s.tapes[6].iter().find(|x| x.0 == *clk) {
            if b.iter().zip(&id).any(|(x, y)| x != y) { changed = Some(n); }
            if b.len() > id.len() { id = b.clone(); }
            let mut t = (*m.tapes).clone();
            t.self_id = b.clone();
            m.tapes = std::rc::Rc::new(t);
        }
        let (next, did) = m.step().map_err(|e| ("refused-step", format!("step {n} at {:#x}: the machine stops with {e:?}", m.pc)))?;
        for (r, v) in &st.writes { if *r < 32 && *r != 0 { regs[*r as usize] = *v; } else if *r != 0 { return Err(("register", format!("step {n} writes register {r}"))); } }
        if let Some(r) = (1..32).find(|r| regs[*r] != u64::from(next.regs[*r])) {
            return Err(("register", format!("step {n} at {:#x} (word {:#010x}): x{r} is {:#x}, the machine has {:#x}", m.pc, did.word, regs[r], next.regs[r])));
        }
        let mut want: BTreeMap<u64, u64> = BTreeMap::new();
        let touched: Vec<u32> = match (&did.hash, &did.read, did.word & 0x7f) {
            (Some(h), ..) => (0..32).map(|i| h.output.wrapping_add(i)).collect(),
            (_, Some(_), _) | (_, _, 0x23) => did.addrs.clone(),
            _ => vec![],
        };
        for a in touched { want.insert(u64::from(a), u64::from(next.byte(a))); }
        let mut got: BTreeMap<u64, u64> = BTreeMap::new();
        for (a, v) in &st.stores { if got.insert(*a, *v).map_or(false, |o| o != *v) { return Err(("memory", format!("step {n}: {a:#x} written twice"))); } }
        if want != got {
            let class = if did.read.is_some() { "tape" } else { "memory" };
            if let Some((n, at, b)) = &did.read {
                // The right bytes of the tape in the right place, only not as many as asked for.
                let i = DEVICES.iter().position(|x| x.1 == *n).unwrap();
                let given = s.tapes[i].iter().find(|x| x.0 == *clk).map(|x| x.1.clone()).unwrap_or_default();
                let right: BTreeMap<u64, u64> = given.iter().enumerate().map(|(k, v)| (u64::from(at.wrapping_add(k as u32)), u64::from(*v))).collect();
                let start = given.len().min(b.len());
                if given.len() != b.len() && given[..start] == b[..start] && right == got {
                    return Err((READ_SIZE, format!("step {n}: device {} gives {} bytes to a call that gets {}", DEVICES[i].0, given.len(), b.len())));
                }
                // Each of the commitment's bytes at most once, whatever their order.
                let count = |v: &[u8], x: u8| v.iter().filter(|y| **y == x).count();
                if right == got && (*n == 7 || *n == 8) && given.iter().all(|x| count(&given, *x) <= count(&known[usize::from(*n == 8)], *x)) {
                    return Err((COMMITMENT_ORDER, format!("step {n}: {} gives the bytes of the commitment in another order", DEVICES[i].0)));
                }
            }
            let a = want.keys().chain(got.keys()).find(|a| want.get(a) != got.get(a)).unwrap();
            return Err((class, format!("step {n} at {:#x} (word {:#010x}, call {:?}): byte {a:#x} becomes {:?}, the machine makes it {:?}", m.pc, did.word, did.sys, got.get(a), want.get(a))));
        }
        if (st.halt == 1) != next.halted { return Err(("halt", format!("step {n} (clock {clk}): halts {} but the machine {}", st.halt, next.halted))); }
        if !next.halted && st.new_pc != u64::from(next.pc) { return Err(("pc", format!("step {n} goes to {:#x}, the machine to {:#x}", st.new_pc, next.pc))); }
        m = next;
    }
    if !m.halted { return Err(("halt", "the tables end before the machine halts".into())); }
    if let Some(n) = changed { return Err((SELF_ID, format!("step {n}: reads of the program's own id disagree"))); }
    Ok(())
}
