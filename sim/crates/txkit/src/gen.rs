//! Generated transactions.
use simkit::Rng;

use crate::script::{Handler, Op, Script, Shape};
use crate::{Id, Prog, Root, Tx};

pub struct Want {
    pub programs: u64,
    pub ops: u64,
    pub roots: u64,
    /// Longest message body.
    pub len: u64,
    /// Programs call only programs later in the list.
    pub acyclic: bool,
    /// Emit as another program now and then.
    pub identities: bool,
    /// All calls together.
    pub budget: u64,
}

/// Identifiers that are easily confused with one another.
pub fn ids(r: &mut Rng, n: usize) -> Vec<Id> {
    let style = r.below(4);
    let base: Id = r.bytes(32).try_into().unwrap();
    let mut v: Vec<Id> = vec![];
    while v.len() < n {
        let mut x = match style {
            0 => r.bytes(32).try_into().unwrap(),
            1 => { let mut b = base; b[r.usize(32)] ^= 1 << r.below(8); b }
            2 => { let mut b = [0; 32]; b[*r.pick(&[0, 7, 8, 15, 24, 31])] = r.u8(); b }
            _ => { let mut b = base; b[31] = r.u8(); b }
        };
        // Digests are four field elements.
        for k in 0..4 { if x[8 * k + 4..8 * k + 8] == [0xff; 4] { x[8 * k + 7] = 0x7f; } }
        if x != [0; 32] && !v.contains(&x) { v.push(x); }
    }
    r.shuffle(&mut v);
    v
}
pub fn addresses(r: &mut Rng, n: usize) -> Vec<[u8; 8]> {
    let style = r.below(5);
    let base = r.u64();
    (0..n).map(|_| match style {
        0 => r.u64(),
        1 => base ^ (1 << r.below(64)),
        2 => r.below(6),
        3 => (r.below(4) << 62) | r.below(3),
        _ => (base & !0xff_00ff) | (r.below(3) << 16) | r.below(3),
    }.to_le_bytes()).collect()
}
pub fn shape(r: &mut Rng, len: u64) -> Shape { Shape { kind: r.below(7) as u8, len: r.small(len) as u16, data: r.chance(70) } }

pub fn tx(r: &mut Rng, w: &Want) -> Tx {
    let n = r.range(1, w.programs) as usize;
    let ids = ids(r, n);
    let na = r.range(1, 5) as usize;
    let addr = addresses(r, na);
    // A swarm of features per transaction.
    let (p_send, p_emit, p_in) = (r.range(0, 6), r.range(0, 6), r.range(0, 3));
    let mut cost = vec![1u64; n];
    let mut programs: Vec<Prog> = vec![];
    for i in (0..n).rev() {
        let handlers: Vec<Handler> = (0..r.range(1, 3)).map(|_| {
            let mut spent = 0;
            let ops = (0..r.small(w.ops)).filter_map(|_| match r.weighted(&[p_send, p_emit, p_in, u64::from(w.identities)]) {
                0 => {
                    let j = if w.acyclic { if i + 1 >= n { return None; } r.range(i as u64 + 1, n as u64 - 1) as usize } else { r.usize(n) };
                    if w.acyclic {
                        if spent + cost[j] > w.budget / 3 { return None; }
                        spent += cost[j];
                    }
                    Some(Op::Send { to: ids[j], method: r.below(4) as u8, shape: shape(r, w.len) })
                }
                1 => Some(Op::Emit { kind: r.below(5) as u8, address: *r.pick(&addr), owner: if r.chance(50) { *r.pick(&ids) } else { [0; 32] }, shape: shape(r, w.len) }),
                2 => Some(Op::Input { public: r.chance(50), len: r.small(w.len * 2) as u16, piece: r.small(w.len) as u16, fill: r.u64() }),
                _ if !w.identities => None,
                _ => Some(Op::EventHash { kind: r.u8(), address: *r.pick(&addr), data: { let k = r.small(20) as usize; r.bytes(k) } }),
            }).collect();
            cost[i] = cost[i].max(1 + spent);
            Handler { ops, reply: shape(r, w.len) }
        }).collect();
        programs.insert(0, Prog { id: ids[i], script: Script { direct: false, limit: 0, handlers } });
    }
    let mut spent = 0;
    let roots = (0..r.range(1, w.roots)).filter_map(|k| {
        // Deep trees start at the front.
        let j = if k == 0 || r.chance(50) { 0 } else { r.usize(n) };
        if spent + cost[j] > w.budget { return None; }
        spent += cost[j];
        Some(Root { to: ids[j], method: r.below(4) as u8, shape: shape(r, w.len), salt: r.u64() })
    }).collect();
    Tx { programs, roots }
}
