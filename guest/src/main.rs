#![no_main]
#![feature(restricted_std)]
mod script;
use std::io::{Read, Seek, SeekFrom};

use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, Event, Poseidon2Hash, PrivateInputTapeType, ProgramIdentifier, PublicInputTapeType};
use mozak_sdk::InputTapeType;
use rkyv::rancor::{Panic, Strategy};
use rkyv::Deserialize;
use script::*;

/// The simulator finds these by their marks and patches the script in.
#[repr(C, align(16))]
struct Area {
    mark: [u8; 16],
    len: u32,
    bytes: [u8; 12288],
}
#[repr(C, align(16))]
struct Out {
    mark: [u8; 16],
    ptr: u32,
    len: u32,
    done: u32,
}
#[used]
static mut SCRIPT: Area = Area { mark: *b"<script is here>", len: 0, bytes: [0; 12288] };
#[used]
static mut OUT: Out = Out { mark: *b"<output is here>", ptr: 0, len: 0, done: 0 };

fn load() -> Script {
    unsafe {
        let n = core::ptr::read_volatile(core::ptr::addr_of!(SCRIPT.len)) as usize;
        let p = core::ptr::addr_of!(SCRIPT.bytes).cast::<u8>();
        let b: Vec<u8> = (0..n).map(|i| core::ptr::read_volatile(p.add(i))).collect();
        rkyv::access_unchecked::<Script>(&b).deserialize(Strategy::<_, Panic>::wrap(&mut ())).unwrap()
    }
}

#[derive(Default)]
struct Guest {
    log: Vec<u8>,
    public: Option<PublicInputTapeType>,
    private: Option<PrivateInputTapeType>,
}
impl Guest {
    fn publish(&self, done: bool) {
        unsafe {
            core::ptr::write_volatile(core::ptr::addr_of_mut!(OUT.ptr), self.log.as_ptr() as u32);
            core::ptr::write_volatile(core::ptr::addr_of_mut!(OUT.len), self.log.len() as u32);
            core::ptr::write_volatile(core::ptr::addr_of_mut!(OUT.done), u32::from(done));
        }
    }
}
fn kind(public: bool) -> InputTapeType { if public { InputTapeType::PublicTape } else { InputTapeType::PrivateTape } }
fn read_stream(t: &mut impl Read, n: usize) -> Vec<u8> {
    let mut b = vec![0xee; n];
    match t.read(&mut b) {
        Ok(k) => { let mut v = vec![1]; v.extend((k as u32).to_le_bytes()); v.extend(&b[..k.min(n)]); v }
        Err(_) => vec![0],
    }
}
fn seek_stream(t: &mut impl Seek, p: SeekFrom) -> Vec<u8> {
    match t.seek(p) {
        Ok(k) => { let mut v = vec![1]; v.extend(k.to_le_bytes()); v }
        Err(_) => vec![0],
    }
}
impl World for Guest {
    fn send(&mut self, to: ProgramIdentifier, request: Request) -> Reply {
        mozak_sdk::call_send::<Request, Reply>(to, request, |_| unreachable!())
    }
    fn emit(&mut self, event: Event) { mozak_sdk::event_emit(event) }
    fn input(&mut self, public: bool, len: usize, piece: usize, _: u64) -> Vec<u8> {
        let mut v = vec![];
        while v.len() < len {
            let mut b = vec![0; piece.min(len - v.len())];
            let k = mozak_sdk::read(&kind(public), &mut b).unwrap();
            if k == 0 { break; }
            v.extend(&b[..k]);
        }
        v
    }
    fn other(&mut self, op: &Op) -> Vec<u8> {
        match op {
            Op::Open { public } => {
                let n = mozak_sdk::input_tape_len(&kind(*public));
                if *public { self.public = Some(PublicInputTapeType::with_size_hint(n)) } else { self.private = Some(PrivateInputTapeType::with_size_hint(n)) }
                (n as u32).to_le_bytes().to_vec()
            }
            Op::Read { public, len } => {
                let n = usize::from(*len);
                match (*public, &mut self.public, &mut self.private) {
                    (true, Some(t), _) => read_stream(&mut **t, n),
                    (false, _, Some(t)) => read_stream(&mut **t, n),
                    // The SDK's own reader.
                    _ => {
                        let mut b = vec![0xee; n];
                        match mozak_sdk::read(&kind(*public), &mut b) {
                            Ok(k) => { let mut v = vec![1]; v.extend((k as u32).to_le_bytes()); v.extend(&b[..k.min(n)]); v }
                            Err(_) => vec![0],
                        }
                    }
                }
            }
            Op::Seek { public, whence, offset } => {
                let p = match whence % 3 { 0 => SeekFrom::Start(*offset as u64), 1 => SeekFrom::End(*offset), _ => SeekFrom::Current(*offset) };
                match (*public, &mut self.public, &mut self.private) {
                    (true, Some(t), _) => seek_stream(&mut **t, p),
                    (false, _, Some(t)) => seek_stream(&mut **t, p),
                    _ => vec![],
                }
            }
            Op::Hash { bytes, pad } => (if *pad { mozak_sdk::poseidon2_hash_with_pad(bytes) } else { mozak_sdk::poseidon2_hash_no_pad(bytes) }).inner().to_vec(),
            Op::Merkle { leaves } => merkleize(leaves.iter().map(|(a, h)| (*a, Poseidon2Hash(*h))).collect()).inner().to_vec(),
            Op::EventHash { kind, address, data } => CanonicalEvent::from_event(&event_of(*kind, *address, [0; 32], data.clone())).canonical_hash().inner().to_vec(),
            _ => vec![],
        }
    }
    fn note(&mut self, tag: u8, bytes: &[u8]) {
        self.log.push(tag);
        self.log.extend((bytes.len() as u32).to_le_bytes());
        self.log.extend(bytes);
        self.publish(false);
    }
}

pub fn main() {
    let s = load();
    let mut g = Guest::default();
    if s.direct {
        let r = handle(&mut g, &s, &Request { method: 0, body: Body::Unit });
        g.note(6, &r.code.to_le_bytes());
    } else {
        let mut served = 0;
        while let Some((caller, request, reply)) = mozak_sdk::call_receive::<Request, Reply>() {
            let mut b = caller.inner().to_vec();
            b.extend(fold(mix(1, u64::from(request.method)), &request.body).to_le_bytes());
            b.extend(fold(mix(2, reply.code), &reply.body).to_le_bytes());
            g.note(1, &b);
            assert!(handle(&mut g, &s, &request) == reply);
            served += 1;
            if served == s.limit { break; }
        }
    }
    g.publish(true);
    std::mem::forget(g);
}

mozak_sdk::entry!(main);
