//! The proposer's surroundings: program circuits, shared circuit data, and the commitments that
//! must come out, computed without the proposer's or the SDK's trees.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use mozak_node::block_proposer::block::AuxBlockData;
use mozak_node::block_proposer::matches::AuxMatchesData;
use mozak_node::block_proposer::state::AuxStateData;
use mozak_node::block_proposer::transactions::AuxTransactionData;
use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
use mozak_recproofs::indices::{ArrayTargetIndex, BoolTargetIndex, HashOutTargetIndex};
use mozak_recproofs::Object;
use mozak_sdk::common::types::{CanonicalEvent, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::gates::noop::NoopGate;
use plonky2::hash::hash_types::{HashOut, HashOutTarget};
use plonky2::hash::poseidon2::Poseidon2Hash as H;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::{CircuitConfig, CircuitData};
use plonky2::plonk::config::Hasher;
use plonky2::plonk::proof::ProofWithPublicInputs;
use serde::{Deserialize, Serialize};
use simkit::Rng;

pub use mozak_node::{C, D, F};
pub type Word = [F; 4];
pub type Proof = ProofWithPublicInputs<F, C, D>;
pub const ORDER: u64 = 0xffff_ffff_0000_0001;
/// The state proofs keep the address -1 for "no address".
pub const ADDR_END: u64 = ORDER - 1;

pub fn config() -> CircuitConfig {
    let mut c = CircuitConfig::standard_recursion_config();
    c.security_bits = 1;
    c.num_challenges = 1;
    c.fri_config.cap_height = 0;
    c.fri_config.proof_of_work_bits = 0;
    c.fri_config.num_query_rounds = 1;
    c
}

// ------------------------------------------------------------------- programs

pub const PROGRAMS: u8 = 40;
/// Program 0 is the one every object without an owner belongs to.
pub fn program_word(p: u8) -> [u64; 4] {
    if p == 0 { return [0; 4]; }
    let mut r = Rng::new(0x9_0000 + u64::from(p));
    [(); 4].map(|()| r.u64() % ORDER)
}
/// A few values that many events and objects share; 0 is the zero value.
pub fn value_word(v: u8) -> [u64; 4] {
    match v {
        0 => [0; 4],
        1 => [0, 0, 1, 0],
        2 => [ORDER - 1, 0, 0, ORDER - 1],
        _ => { let mut r = Rng::new(0x7_0000 + u64::from(v)); [(); 4].map(|()| r.u64() % ORDER) }
    }
}
pub fn fs(w: [u64; 4]) -> Word { w.map(F::from_canonical_u64) }
pub fn pid(p: u8) -> ProgramIdentifier { ProgramIdentifier(Poseidon2Hash::from(program_word(p))) }

pub struct Program {
    id: Word,
    program_hash: [Target; 4],
    events_present: BoolTarget,
    event_root: HashOutTarget,
    call_list: [Target; 4],
    cast_root: HashOutTarget,
    pub circuit: CircuitData<F, C, D>,
}
impl Program {
    fn new(id: Word) -> Self {
        let mut b = CircuitBuilder::<F, D>::new(config());
        let program_hash: [Target; 4] = b.add_virtual_target_arr();
        let events_present = b.add_virtual_bool_target_safe();
        let event_root = b.add_virtual_hash();
        let call_list: [Target; 4] = b.add_virtual_target_arr();
        let cast_root = b.add_virtual_hash();
        b.register_public_inputs(&program_hash);
        b.register_public_input(events_present.target);
        b.register_public_inputs(&event_root.elements);
        b.register_public_inputs(&call_list);
        b.register_public_inputs(&cast_root.elements);
        for (p, v) in program_hash.into_iter().zip(id) {
            let k = b.constant(v);
            b.connect(p, k);
        }
        b.add_gate(NoopGate, vec![]);
        while b.num_gates() < (1 << 3) { b.add_gate(NoopGate, vec![]); }
        Self { id, program_hash, events_present, event_root, call_list, cast_root, circuit: b.build() }
    }
    fn indices(&self) -> ProgramPublicIndices {
        let p = &self.circuit.prover_only.public_inputs;
        ProgramPublicIndices {
            program_hash: ArrayTargetIndex::new(p, &self.program_hash),
            events_present: BoolTargetIndex::new(p, self.events_present),
            event_root: HashOutTargetIndex::new(p, self.event_root),
            call_list: ArrayTargetIndex::new(p, &self.call_list),
            cast_root: HashOutTargetIndex::new(p, self.cast_root),
        }
    }
    pub fn prove_flag(&self, present: bool, root: HashOut<F>, call: Word, cast: HashOut<F>) -> Proof {
        let mut w = PartialWitness::new();
        w.set_target_arr(&self.program_hash, &self.id);
        w.set_bool_target(self.events_present, present);
        w.set_hash_target(self.event_root, root);
        w.set_target_arr(&self.call_list, &call);
        w.set_hash_target(self.cast_root, cast);
        self.circuit.prove(w).expect("a program can prove its own run")
    }
    pub fn prove(&self, root: Option<HashOut<F>>, call: Word, cast: HashOut<F>) -> Proof { self.prove_flag(root.is_some(), root.unwrap_or_default(), call, cast) }
}
pub fn program(p: u8) -> &'static Program {
    static ALL: OnceLock<Vec<Program>> = OnceLock::new();
    &ALL.get_or_init(|| simkit::isolated(1, || (0..PROGRAMS).map(|p| Program::new(fs(program_word(p)))).collect()))[usize::from(p % PROGRAMS)]
}

// --------------------------------------------------------------- circuit data

pub fn tx_aux() -> &'static AuxTransactionData {
    static A: OnceLock<AuxTransactionData> = OnceLock::new();
    A.get_or_init(|| simkit::isolated(1, || AuxTransactionData::new(&config(), &program(0).indices(), &program(0).circuit.common)))
}
pub fn match_aux() -> &'static AuxMatchesData {
    static A: OnceLock<AuxMatchesData> = OnceLock::new();
    A.get_or_init(|| simkit::isolated(1, || AuxMatchesData::new(&config())))
}
pub const DEPTHS: [usize; 8] = [0, 1, 2, 3, 4, 8, 20, 63];
pub fn state_aux(d: usize) -> &'static AuxStateData {
    const NEW: OnceLock<AuxStateData> = OnceLock::new();
    static A: [OnceLock<AuxStateData>; 64] = [NEW; 64];
    A[d].get_or_init(|| simkit::isolated(1, || AuxStateData::new(&config(), d)))
}
pub fn block_aux(d: usize) -> &'static AuxBlockData {
    const NEW: OnceLock<AuxBlockData> = OnceLock::new();
    static A: [OnceLock<AuxBlockData>; 64] = [NEW; 64];
    A[d].get_or_init(|| simkit::isolated(1, || AuxBlockData::new(&config(), tx_aux(), match_aux(), state_aux(d))))
}

// -------------------------------------------------------------------- objects

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Obj {
    pub owner: u8,
    pub data: u8,
    pub updated: u64,
    pub credits: u64,
}
impl Obj {
    pub const NONE: Self = Self { owner: 0, data: 0, updated: 0, credits: 0 };
    pub fn real(self) -> Object<F> {
        Object { constraint_owner: fs(program_word(self.owner)), last_updated: F::from_canonical_u64(self.updated), credits: F::from_canonical_u64(self.credits), data: fs(value_word(self.data)) }
    }
    pub fn hash(self) -> HashOut<F> {
        let mut v = fs(program_word(self.owner)).to_vec();
        v.extend([self.updated, self.credits].map(F::from_canonical_u64));
        v.extend(fs(value_word(self.data)));
        H::hash_no_pad(&v)
    }
}
pub fn summary(addr: u64, old: HashOut<F>, new: HashOut<F>) -> HashOut<F> {
    let mut v = vec![F::from_canonical_u64(addr)];
    v.extend(old.elements);
    v.extend(new.elements);
    H::hash_no_pad(&v)
}

// --------------------------------------------------------------------- events

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ev {
    pub addr: u64,
    /// 0 write, 1 ensure, 2 read, 3 give, 4 take
    pub kind: u8,
    /// Value number; a program number for gives and takes.
    pub val: u8,
}
impl Ev {
    pub fn word(&self) -> [u64; 4] { if self.kind % 5 >= 3 { program_word(self.val % PROGRAMS) } else { value_word(self.val) } }
    pub fn real(&self) -> CanonicalEvent {
        let type_ = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][usize::from(self.kind % 5)];
        CanonicalEvent { address: StateAddress(self.addr.to_le_bytes()), type_, value: Poseidon2Hash::from(self.word()) }
    }
    fn bytes(&self) -> [u8; 32] { self.real().value.0 }
    /// Digest the VM commits to: type, address and value as bytes.
    pub fn vm_hash(&self) -> HashOut<F> {
        let mut b = u64::from(self.kind % 5).to_le_bytes().to_vec();
        b.extend(self.addr.to_le_bytes());
        b.extend(self.bytes());
        H::hash_no_pad(&b.iter().map(|x| F::from_canonical_u8(*x)).collect::<Vec<_>>())
    }
    /// Digest the block commits to: owner, type, address and value as field elements.
    pub fn rp_hash(&self, owner: u8) -> HashOut<F> {
        let mut v = fs(program_word(owner)).to_vec();
        v.extend([u64::from(self.kind % 5), self.addr].map(F::from_canonical_u64));
        v.extend(fs(self.word()));
        H::hash_no_pad(&v)
    }
}
/// Canonical order: address, type, value.
pub fn canonical(v: &[Ev]) -> Vec<Ev> {
    let mut v: Vec<Ev> = v.iter().map(|e| Ev { addr: e.addr % ADDR_END, kind: e.kind % 5, ..*e }).collect();
    v.sort_by_key(|e| (e.addr, e.kind, e.bytes()));
    v
}
pub fn real_events(v: &[Ev]) -> Vec<CanonicalEvent> { v.iter().map(Ev::real).collect() }

// ---------------------------------------------------------------------- trees

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tree {
    Leaf(HashOut<F>),
    Node(Box<Tree>, Box<Tree>),
}
impl Tree {
    pub fn hash(&self) -> HashOut<F> {
        match self { Self::Leaf(h) => *h, Self::Node(l, r) => H::two_to_one(l.hash(), r.hash()) }
    }
    fn node(l: Self, r: Self) -> Self { Self::Node(Box::new(l), Box::new(r)) }
    /// Left part the largest power of two below the length.
    pub fn list(v: &[HashOut<F>]) -> Self {
        if v.len() == 1 { return Self::Leaf(v[0]); }
        let k = v.len().next_power_of_two() / 2;
        Self::node(Self::list(&v[..k]), Self::list(&v[k..]))
    }
    fn merge(self, o: Self) -> Self {
        match (self, o) {
            (Self::Node(a, b), Self::Node(c, d)) => Self::node(a.merge(*c), b.merge(*d)),
            (a, b) => Self::node(a, b),
        }
    }
}
/// One tree per address; addresses hang in a compressed binary trie.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Forest(pub BTreeMap<u64, Tree>);
impl Forest {
    pub fn of(owner: u8, evs: &[Ev]) -> Self {
        let mut m: BTreeMap<u64, Vec<HashOut<F>>> = BTreeMap::new();
        for e in canonical(evs) { m.entry(e.addr).or_default().push(e.rp_hash(owner)); }
        Self(m.into_iter().map(|(a, v)| (a, Tree::list(&v))).collect())
    }
    pub fn merge(mut self, o: Self) -> Self {
        for (a, t) in o.0 {
            let n = match self.0.remove(&a) { None => t, Some(s) => s.merge(t) };
            self.0.insert(a, n);
        }
        self
    }
    pub fn root(&self) -> Option<HashOut<F>> { trie(&self.0.iter().map(|(a, t)| (*a, t.hash())).collect::<Vec<_>>()) }
}
/// Root of a compressed binary trie over distinct ascending addresses.
pub fn trie(v: &[(u64, HashOut<F>)]) -> Option<HashOut<F>> {
    match v {
        [] => None,
        [x] => Some(x.1),
        _ => {
            let bit = 63 - (v[0].0 ^ v[v.len() - 1].0).leading_zeros();
            let cut = v.iter().position(|x| x.0 >> bit & 1 == 1)?;
            Some(H::two_to_one(trie(&v[..cut])?, trie(&v[cut..])?))
        }
    }
}
/// Node of a tree built by the SDK: over bytes.
fn byte_node(l: [u64; 4], r: [u64; 4]) -> [u64; 4] {
    let b: Vec<F> = [l, r].iter().flatten().flat_map(|x| x.to_le_bytes()).map(F::from_canonical_u8).collect();
    H::hash_no_pad(&b).elements.map(|x| x.to_canonical_u64())
}
fn byte_list(v: &[[u64; 4]]) -> [u64; 4] {
    if v.len() == 1 { return v[0]; }
    let k = v.len().next_power_of_two() / 2;
    byte_node(byte_list(&v[..k]), byte_list(&v[k..]))
}
fn byte_trie(v: &[(u64, [u64; 4])]) -> [u64; 4] {
    if v[0].0 == v[v.len() - 1].0 { return byte_list(&v.iter().map(|x| x.1).collect::<Vec<_>>()); }
    let bit = 63 - (v[0].0 ^ v[v.len() - 1].0).leading_zeros();
    let cut = v.partition_point(|x| x.0 >> bit & 1 == 0);
    byte_node(byte_trie(&v[..cut]), byte_trie(&v[cut..]))
}
/// What a program's own run commits to: its events in canonical order.
pub fn vm_root(evs: &[Ev]) -> Option<HashOut<F>> {
    let v: Vec<_> = canonical(evs).iter().map(|e| (e.addr, e.vm_hash().elements.map(|x| x.to_canonical_u64()))).collect();
    (!v.is_empty()).then(|| HashOut { elements: fs(byte_trie(&v)) })
}
/// Cast list commitment.
pub fn cast_root(cast: &[u8]) -> HashOut<F> { HashOut { elements: fs(byte_list(&cast.iter().map(|p| program_word(*p)).collect::<Vec<_>>())) } }
/// Forest of a whole transaction: programs pair up along the cast tree.
pub fn tx_forest(cast: &[u8], evs: &[Vec<Ev>]) -> Forest {
    if cast.len() == 1 { return Forest::of(cast[0], &evs[0]); }
    let k = cast.len().next_power_of_two() / 2;
    tx_forest(&cast[..k], &evs[..k]).merge(tx_forest(&cast[k..], &evs[k..]))
}

// ----------------------------------------------------------------- generation

/// Addresses close together, far apart, at the ends, and differing in single bits.
pub fn addresses(r: &mut Rng, n: usize, bits: u32) -> Vec<u64> {
    let max = if bits >= 64 { ADDR_END - 1 } else { (1u64 << bits) - 1 };
    let mut v: Vec<u64> = vec![];
    for _ in 0..n {
        let a = match r.below(8) {
            0 => r.below(4),
            1 => max - r.below(4).min(max),
            2 | 3 if !v.is_empty() => { let b = r.below(u64::from(bits.min(64))); *r.pick(&v) ^ (1 << b) }
            4 if !v.is_empty() => r.pick(&v).wrapping_add(1),
            5 => 1 << r.below(u64::from(bits.min(64))),
            6 if !v.is_empty() => *r.pick(&v),
            _ => r.u64(),
        };
        v.push(if bits >= 64 { a % ADDR_END } else { a & max });
    }
    v
}
