//! The program every simulated party runs: a small interpreter over the SDK, compiled both
//! into the guest and into the native simulator.
use mozak_sdk::common::types::{Event, EventType, ProgramIdentifier, StateAddress, StateObject};
use rkyv::{Archive, Deserialize, Serialize};

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug))]
pub enum Body {
    #[default]
    Unit,
    Word(u64),
    Bytes(Vec<u8>),
    Text(String),
    Many(Vec<(u32, Vec<u8>)>),
    Object(StateObject),
    Maybe(Option<u64>, bool),
}

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug))]
pub struct Request {
    pub method: u8,
    pub body: Body,
}

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug))]
pub struct Reply {
    pub code: u64,
    pub body: Body,
}

/// How a message body is made from the handler's running value.
#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug, serde::Serialize, serde::Deserialize))]
pub struct Shape {
    pub kind: u8,
    pub len: u16,
    /// Depend on what the handler saw so far.
    pub data: bool,
}

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug, serde::Serialize, serde::Deserialize))]
pub enum Op {
    Send { to: [u8; 32], method: u8, shape: Shape },
    Emit { kind: u8, address: [u8; 8], owner: [u8; 32], shape: Shape },
    /// Natively the bytes are written, in the VM they are read (in pieces of `piece`).
    Input { public: bool, len: u16, piece: u16, fill: u64 },
    /// Independent stream on an input tape.
    Open { public: bool },
    Read { public: bool, len: u16 },
    Seek { public: bool, whence: u8, offset: i64 },
    Hash { bytes: Vec<u8>, pad: bool },
    Merkle { leaves: Vec<(u64, [u8; 32])> },
    EventHash { kind: u8, address: [u8; 8], data: Vec<u8> },
}

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug, serde::Serialize, serde::Deserialize))]
pub struct Handler {
    pub ops: Vec<Op>,
    pub reply: Shape,
}

#[derive(Archive, Deserialize, Serialize, PartialEq, Clone, Default)]
#[cfg_attr(not(target_os = "mozakvm"), derive(Debug, serde::Serialize, serde::Deserialize))]
pub struct Script {
    /// Run handler 0 once instead of serving the mailbox.
    pub direct: bool,
    /// Serve this many calls and stop; all there are if zero.
    #[cfg_attr(not(target_os = "mozakvm"), serde(default))]
    pub limit: u16,
    pub handlers: Vec<Handler>,
}

pub fn mix(a: u64, x: u64) -> u64 { (a ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) ^ x }
pub fn mix_bytes(mut a: u64, b: &[u8]) -> u64 {
    for x in b { a = mix(a, u64::from(*x)); }
    mix(a, b.len() as u64)
}
/// `n` bytes that depend on `seed` alone.
pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed;
    (0..n).map(|i| { s = mix(s, i as u64); (s >> 32) as u8 }).collect()
}

pub fn make(shape: &Shape, acc: u64) -> Body {
    let a = if shape.data { acc } else { mix(7, u64::from(shape.len)) };
    let n = usize::from(shape.len);
    match shape.kind % 7 {
        0 => Body::Unit,
        1 => Body::Word(a),
        2 => Body::Bytes(fill(a, n)),
        3 => Body::Text(fill(a, n).iter().map(|b| (b'a' + b % 26) as char).collect()),
        4 => Body::Many((0..n % 5).map(|i| (i as u32 ^ a as u32, fill(a ^ i as u64, i * 3))).collect()),
        5 => Body::Object(StateObject {
            address: StateAddress::from(a.to_le_bytes()),
            constraint_owner: ProgramIdentifier::default(),
            data: fill(a, n),
        }),
        _ => Body::Maybe(if a % 2 == 0 { None } else { Some(a) }, a % 3 == 0),
    }
}

pub fn fold(mut a: u64, b: &Body) -> u64 {
    match b {
        Body::Unit => mix(a, 1),
        Body::Word(w) => mix(a, *w),
        Body::Bytes(v) => mix_bytes(a, v),
        Body::Text(t) => mix_bytes(a, t.as_bytes()),
        Body::Many(m) => {
            for (k, v) in m { a = mix_bytes(mix(a, u64::from(*k)), v); }
            mix(a, m.len() as u64)
        }
        Body::Object(o) => mix_bytes(mix_bytes(mix_bytes(a, &o.address.inner()), &o.constraint_owner.inner()), &o.data),
        Body::Maybe(o, b) => mix(mix(a, o.unwrap_or(3)), u64::from(*b) + 5),
    }
}

pub fn event_type(k: u8) -> EventType {
    match k % 5 {
        0 => EventType::Write,
        1 => EventType::Ensure,
        2 => EventType::Read,
        3 => EventType::GiveOwner,
        _ => EventType::TakeOwner,
    }
}

pub fn body_bytes(b: &Body) -> Vec<u8> {
    match b {
        Body::Unit => vec![],
        Body::Bytes(v) => v.clone(),
        Body::Text(t) => t.as_bytes().to_vec(),
        b => fold(11, b).to_le_bytes().to_vec(),
    }
}

/// What the interpreter needs from its surroundings.
pub trait World {
    fn send(&mut self, to: ProgramIdentifier, request: Request) -> Reply;
    fn emit(&mut self, event: Event);
    fn input(&mut self, public: bool, len: usize, piece: usize, fill: u64) -> Vec<u8>;
    /// The result to be logged of any other operation.
    fn other(&mut self, op: &Op) -> Vec<u8>;
    /// Note what the program saw.
    fn note(&mut self, tag: u8, bytes: &[u8]);
}

pub fn event_of(kind: u8, address: [u8; 8], owner: [u8; 32], data: Vec<u8>) -> Event {
    Event {
        object: StateObject {
            address: StateAddress::from(address),
            constraint_owner: ProgramIdentifier(owner.into()),
            data,
        },
        type_: event_type(kind),
    }
}

pub fn handle<W: World>(w: &mut W, s: &Script, r: &Request) -> Reply {
    let mut acc = fold(mix(3, u64::from(r.method)), &r.body);
    let none = Handler::default();
    let h = if s.handlers.is_empty() { &none } else { &s.handlers[usize::from(r.method) % s.handlers.len()] };
    for op in &h.ops {
        match op {
            Op::Send { to, method, shape } => {
                let reply = w.send(ProgramIdentifier((*to).into()), Request { method: *method, body: make(shape, acc) });
                acc = fold(mix(acc, reply.code), &reply.body);
                w.note(2, &acc.to_le_bytes());
            }
            Op::Emit { kind, address, owner, shape } => {
                w.emit(event_of(*kind, *address, *owner, body_bytes(&make(shape, acc))));
            }
            Op::Input { public, len, piece, fill } => {
                let b = w.input(*public, usize::from(*len), usize::from(*piece).max(1), *fill);
                w.note(if *public { 3 } else { 4 }, &b);
                acc = mix_bytes(acc, &b);
            }
            op => {
                let b = w.other(op);
                w.note(5, &b);
            }
        }
    }
    Reply { code: acc, body: make(&h.reply, acc) }
}
