//! The ideal proof system.  A circuit is a list of operations with copy
//! constraints; proving evaluates all of them on the witness, panics (with
//! the real prover's words) when any contradicts another, and otherwise
//! issues a tag bound to the circuit and the public inputs.
use core::borrow::Borrow;
use core::marker::PhantomData;
use std::collections::{BTreeSet, HashMap};

use crate::field::extension::Extendable;
use crate::field::types::Field;
use crate::gates::gate::{Gate, GateRef};
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::hashing::hash_n_to_hash_no_pad;
use crate::hash::merkle_tree::MerkleCap;
use crate::hash::poseidon2::{Poseidon2Permutation, RATE};
use crate::iop::target::{BoolTarget, Target};
use crate::iop::witness::PartialWitness;
use crate::plonk::circuit_data::{
    CircuitConfig, CircuitData, CommonCircuitData, ProverOnlyCircuitData, VerifierCircuitTarget, VerifierOnlyCircuitData,
};
use crate::plonk::config::{AlgebraicHasher, GenericConfig};
use crate::plonk::proof::{ProofTarget, ProofWithPublicInputsTarget};

/// Fast non-cryptographic 256-bit mixing: there is no adversary inside the
/// simulator's arithmetic, only in what it feeds the circuits.
pub struct Fast([u64; 4]);
impl Fast {
    pub fn new() -> Self { Self([0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344, 0xa409_3822_299f_31d0, 0x082e_fa98_ec4e_6c89]) }
    pub fn u64(&mut self, x: u64) {
        for i in 0..4 {
            let mut z = self.0[i] ^ x.wrapping_mul(0x9e37_79b9_7f4a_7c15u64.rotate_left(i as u32 * 13));
            z = (z ^ (z >> 31)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb);
            self.0[i] = (z ^ (z >> 32)).wrapping_add(self.0[(i + 1) % 4].rotate_left(17));
        }
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w));
        }
    }
    pub fn finish(&self) -> [u64; 4] { self.0 }
}

pub fn mac<F: RichField>(digest: &[F], cap: &[F], pis: &[F], common: u64) -> HashOut<F> {
    let mut h = Fast::new();
    h.u64(0x6964_6561_6c21);
    h.u64(common);
    for l in [digest, cap, pis] {
        h.u64(l.len() as u64);
        for x in l { h.u64(x.to_canonical_u64()); }
    }
    HashOut { elements: h.finish().map(F::from_noncanonical_u64) }
}

#[derive(Clone, Debug)]
enum Op<F> {
    Arith { c0: F, c1: F, a: Target, b: Target, c: Target, o: Target },
    Const { v: F, o: Target },
    Hash { i: Vec<Target>, o: [Target; 4] },
    Permute { i: [Target; 12], o: [Target; 12] },
    Split { x: Target, o: Vec<Target> },
    LowHigh { x: Target, n: usize, bits: usize, lo: Target, hi: Target },
    Range { x: Target, bits: usize },
    Eq { x: Target, y: Target, o: Target },
    Div { x: Target, y: Target, o: Target },
    Exp { x: Target, bits: Vec<Target>, o: Target },
    Verify { tag: [Target; 4], pis: Vec<Target>, cap: Vec<Target>, digest: Vec<Target>, common: u64 },
}

#[derive(Debug)]
pub struct Program<F> {
    ops: Vec<Op<F>>,
    virt: usize,
    wires: usize,
    rep: Vec<u32>,
}

const VERIFY_ROWS: usize = 150;

#[derive(Debug)]
pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    ops: Vec<Op<F>>,
    copies: Vec<(Target, Target)>,
    virt: usize,
    wires: usize,
    noops: usize,
    gates: BTreeSet<String>,
    public_inputs: Vec<Target>,
    consts: HashMap<F, Target>,
    rows: usize,
}

const RECURSION_GATES: [&str; 9] = [
    "ArithmeticGate", "BaseSumGate", "ConstantGate", "CosetInterpolationGate", "ExponentiationGate", "NoopGate", "Poseidon2Gate",
    "PublicInputGate", "RandomAccessGate",
];

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self {
        Self {
            config,
            ops: vec![],
            copies: vec![],
            virt: 0,
            wires: 0,
            noops: 0,
            gates: BTreeSet::new(),
            public_inputs: vec![],
            consts: HashMap::new(),
            rows: 0,
        }
    }

    fn out(&mut self) -> Target {
        let t = Target::wire(self.wires, 0);
        self.wires += 1;
        t
    }
    fn gate(&mut self, n: &str) { if !self.gates.contains(n) { self.gates.insert(n.into()); } }

    // ---- allocation
    pub fn add_virtual_target(&mut self) -> Target {
        let t = Target::VirtualTarget { index: self.virt };
        self.virt += 1;
        t
    }
    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] {
        core::array::from_fn(|_| self.add_virtual_target())
    }
    pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
    pub fn add_virtual_hashes(&mut self, n: usize) -> Vec<HashOutTarget> { (0..n).map(|_| self.add_virtual_hash()).collect() }
    pub fn add_virtual_cap(&mut self, cap_height: usize) -> MerkleCapTarget {
        MerkleCapTarget(self.add_virtual_hashes(1 << cap_height))
    }
    pub fn add_virtual_public_input(&mut self) -> Target {
        let t = self.add_virtual_target();
        self.register_public_input(t);
        t
    }
    pub fn add_virtual_hash_public_input(&mut self) -> HashOutTarget {
        HashOutTarget { elements: core::array::from_fn(|_| self.add_virtual_public_input()) }
    }
    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.add_virtual_target()) }
    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget {
        let b = self.add_virtual_bool_target_unsafe();
        self.assert_bool(b);
        b
    }
    pub fn add_virtual_verifier_data(&mut self, cap_height: usize) -> VerifierCircuitTarget {
        VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(cap_height), circuit_digest: self.add_virtual_hash() }
    }
    pub fn add_virtual_proof_with_pis(&mut self, common: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> {
        let proof = ProofTarget { tag: self.add_virtual_target_arr() };
        let public_inputs = self.add_virtual_targets(common.num_public_inputs);
        ProofWithPublicInputsTarget { proof, public_inputs }
    }

    // ---- public inputs
    pub fn register_public_input(&mut self, t: Target) { self.public_inputs.push(t); }
    pub fn register_public_inputs(&mut self, ts: &[Target]) { self.public_inputs.extend_from_slice(ts); }
    pub fn num_public_inputs(&self) -> usize { self.public_inputs.len() }
    pub fn public_inputs(&self) -> &[Target] { &self.public_inputs }

    // ---- gates
    pub fn num_gates(&self) -> usize { self.noops + self.rows + self.ops.len() / 20 }
    pub fn add_gate<G: Gate<F, D>>(&mut self, g: G, _constants: Vec<F>) -> usize {
        self.gate(&g.id());
        self.noops += 1;
        self.num_gates() - 1
    }
    pub fn add_gate_to_gate_set(&mut self, g: GateRef<F, D>) { self.gate(&g.0); }

    // ---- copies and assertions
    pub fn connect(&mut self, x: Target, y: Target) { self.copies.push((x, y)); }
    pub fn connect_hashes(&mut self, x: HashOutTarget, y: HashOutTarget) {
        for i in 0..4 { self.connect(x.elements[i], y.elements[i]); }
    }
    pub fn connect_merkle_caps(&mut self, x: &MerkleCapTarget, y: &MerkleCapTarget) {
        assert_eq!(x.0.len(), y.0.len());
        for (a, b) in x.0.iter().zip(&y.0) { self.connect_hashes(*a, *b); }
    }
    pub fn connect_verifier_data(&mut self, x: &VerifierCircuitTarget, y: &VerifierCircuitTarget) {
        self.connect_merkle_caps(&x.constants_sigmas_cap, &y.constants_sigmas_cap);
        self.connect_hashes(x.circuit_digest, y.circuit_digest);
    }
    pub fn assert_zero(&mut self, x: Target) { let z = self.zero(); self.connect(x, z); }
    pub fn assert_one(&mut self, x: Target) { let z = self.one(); self.connect(x, z); }
    pub fn assert_bool(&mut self, b: BoolTarget) {
        let z = self.mul_sub(b.target, b.target, b.target);
        let zero = self.zero();
        self.connect(z, zero);
    }

    // ---- constants
    pub fn constant(&mut self, v: F) -> Target {
        if let Some(t) = self.consts.get(&v) { return *t; }
        self.gate("ConstantGate");
        let o = self.out();
        self.ops.push(Op::Const { v, o });
        self.consts.insert(v, o);
        o
    }
    pub fn constants(&mut self, v: &[F]) -> Vec<Target> { v.iter().map(|v| self.constant(*v)).collect() }
    pub fn zero(&mut self) -> Target { self.constant(F::ZERO) }
    pub fn one(&mut self) -> Target { self.constant(F::ONE) }
    pub fn two(&mut self) -> Target { self.constant(F::TWO) }
    pub fn neg_one(&mut self) -> Target { self.constant(F::NEG_ONE) }
    pub fn _false(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.zero()) }
    pub fn _true(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.one()) }
    pub fn constant_bool(&mut self, b: bool) -> BoolTarget { if b { self._true() } else { self._false() } }
    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|x| self.constant(x)) } }
    pub fn constant_merkle_cap<H: AlgebraicHasher<F>>(&mut self, cap: &MerkleCap<F, H>) -> MerkleCapTarget {
        MerkleCapTarget(cap.0.iter().map(|h| self.constant_hash(*h)).collect())
    }
    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, v: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget {
        VerifierCircuitTarget {
            constants_sigmas_cap: self.constant_merkle_cap(&v.constants_sigmas_cap),
            circuit_digest: self.constant_hash(v.circuit_digest),
        }
    }

    // ---- arithmetic
    /// `c0 * a * b + c1 * c`
    pub fn arithmetic(&mut self, c0: F, c1: F, a: Target, b: Target, c: Target) -> Target {
        self.gate("ArithmeticGate");
        let o = self.out();
        self.ops.push(Op::Arith { c0, c1, a, b, c, o });
        o
    }
    pub fn neg(&mut self, x: Target) -> Target { self.mul_const(F::NEG_ONE, x) }
    pub fn add(&mut self, x: Target, y: Target) -> Target { let one = self.one(); self.arithmetic(F::ONE, F::ONE, x, one, y) }
    pub fn sub(&mut self, x: Target, y: Target) -> Target { let one = self.one(); self.arithmetic(F::ONE, F::NEG_ONE, x, one, y) }
    pub fn mul(&mut self, x: Target, y: Target) -> Target { self.arithmetic(F::ONE, F::ZERO, x, y, x) }
    pub fn square(&mut self, x: Target) -> Target { self.mul(x, x) }
    pub fn cube(&mut self, x: Target) -> Target { let s = self.mul(x, x); self.mul(s, x) }
    pub fn mul_add(&mut self, x: Target, y: Target, z: Target) -> Target { self.arithmetic(F::ONE, F::ONE, x, y, z) }
    pub fn mul_sub(&mut self, x: Target, y: Target, z: Target) -> Target { self.arithmetic(F::ONE, F::NEG_ONE, x, y, z) }
    pub fn add_const(&mut self, x: Target, c: F) -> Target { let c = self.constant(c); self.add(x, c) }
    pub fn mul_const(&mut self, c: F, x: Target) -> Target { let c = self.constant(c); self.mul(c, x) }
    pub fn mul_const_add(&mut self, c: F, x: Target, y: Target) -> Target { let c = self.constant(c); self.mul_add(c, x, y) }
    pub fn add_many<T: Borrow<Target>>(&mut self, ts: impl IntoIterator<Item = T>) -> Target {
        let z = self.zero();
        ts.into_iter().fold(z, |a, t| self.add(a, *t.borrow()))
    }
    pub fn mul_many<T: Borrow<Target>>(&mut self, ts: impl IntoIterator<Item = T>) -> Target {
        let z = self.one();
        ts.into_iter().fold(z, |a, t| self.mul(a, *t.borrow()))
    }
    pub fn div(&mut self, x: Target, y: Target) -> Target {
        self.gate("ArithmeticGate");
        let o = self.out();
        self.ops.push(Op::Div { x, y, o });
        o
    }
    pub fn inverse(&mut self, x: Target) -> Target { let one = self.one(); self.div(one, x) }
    pub fn exp(&mut self, x: Target, e: Target, num_bits: usize) -> Target {
        let bits: Vec<Target> = self.split_le(e, num_bits).into_iter().map(|b| b.target).collect();
        let o = self.out();
        self.gate("ExponentiationGate");
        self.ops.push(Op::Exp { x, bits, o });
        o
    }
    pub fn exp_u64(&mut self, base: Target, mut e: u64) -> Target {
        let mut acc = self.one();
        let mut cur = base;
        while e > 0 {
            if e & 1 == 1 { acc = self.mul(acc, cur); }
            cur = self.mul(cur, cur);
            e >>= 1;
        }
        acc
    }

    // ---- booleans
    pub fn not(&mut self, b: BoolTarget) -> BoolTarget { let one = self.one(); BoolTarget::new_unsafe(self.sub(one, b.target)) }
    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget::new_unsafe(self.mul(a.target, b.target)) }
    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget {
        let t = self.arithmetic(F::NEG_ONE, F::ONE, a.target, b.target, a.target);
        BoolTarget::new_unsafe(self.add(t, b.target))
    }
    pub fn _if(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { self.select(b, x, y) }
    pub fn select(&mut self, b: BoolTarget, x: Target, y: Target) -> Target {
        let tmp = self.mul_sub(b.target, y, y);
        self.mul_sub(b.target, x, tmp)
    }
    pub fn select_hash(&mut self, b: BoolTarget, x: HashOutTarget, y: HashOutTarget) -> HashOutTarget {
        HashOutTarget { elements: core::array::from_fn(|i| self.select(b, x.elements[i], y.elements[i])) }
    }
    pub fn is_equal(&mut self, x: Target, y: Target) -> BoolTarget {
        self.gate("ArithmeticGate");
        let o = self.out();
        self.ops.push(Op::Eq { x, y, o });
        BoolTarget::new_unsafe(o)
    }
    pub fn is_nonzero(&mut self, x: Target) -> BoolTarget {
        let z = self.zero();
        let e = self.is_equal(x, z);
        self.not(e)
    }
    pub fn is_zero(&mut self, x: Target) -> BoolTarget { let z = self.zero(); self.is_equal(x, z) }
    pub fn conditional_assert_eq(&mut self, c: Target, x: Target, y: Target) {
        let zero = self.zero();
        let d = self.sub(x, y);
        let t = self.mul(c, d);
        self.connect(t, zero);
    }

    // ---- bits
    pub fn split_le(&mut self, x: Target, bits: usize) -> Vec<BoolTarget> {
        if bits == 0 { return vec![]; }
        self.gate("BaseSumGate");
        let o: Vec<Target> = (0..bits).map(|_| self.out()).collect();
        self.ops.push(Op::Split { x, o: o.clone() });
        o.into_iter().map(BoolTarget::new_unsafe).collect()
    }
    pub fn split_le_base<const B: usize>(&mut self, x: Target, num: usize) -> Vec<Target> {
        assert_eq!(B, 2, "only base 2 is simulated");
        self.split_le(x, num).into_iter().map(|b| b.target).collect()
    }
    pub fn le_sum(&mut self, bits: impl Iterator<Item = impl Borrow<BoolTarget>>) -> Target {
        let mut acc = self.zero();
        for (i, b) in bits.enumerate() {
            acc = self.mul_const_add(F::TWO.exp_u64(i as u64), b.borrow().target, acc);
        }
        acc
    }
    pub fn range_check(&mut self, x: Target, n_log: usize) {
        self.gate("BaseSumGate");
        self.ops.push(Op::Range { x, bits: n_log });
    }
    pub fn low_bits(&mut self, x: Target, n: usize, bits: usize) -> Vec<BoolTarget> {
        let mut r = self.split_le(x, bits);
        r.truncate(n);
        r
    }
    pub fn split_low_high(&mut self, x: Target, n_log: usize, num_bits: usize) -> (Target, Target) {
        self.gate("BaseSumGate");
        let (lo, hi) = (self.out(), self.out());
        self.ops.push(Op::LowHigh { x, n: n_log, bits: num_bits, lo, hi });
        (lo, hi)
    }

    // ---- hashing
    pub(crate) fn sim_hash(&mut self, i: Vec<Target>) -> HashOutTarget {
        self.gate("Poseidon2Gate");
        let o = core::array::from_fn(|_| self.out());
        self.rows += (i.len() + RATE - 1) / RATE;
        self.ops.push(Op::Hash { i, o });
        HashOutTarget { elements: o }
    }
    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget { self.sim_hash(inputs) }
    pub fn hash_n_to_m_no_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>, m: usize) -> Vec<Target> {
        assert!(m <= 4);
        self.sim_hash(inputs).elements[..m].to_vec()
    }
    pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget { self.sim_hash(inputs) }
    pub fn hash_pad<H: AlgebraicHasher<F>>(&mut self, mut inputs: Vec<Target>) -> HashOutTarget {
        let (zero, one) = (self.zero(), self.one());
        inputs.push(one);
        while (inputs.len() + 1) % RATE != 0 { inputs.push(zero); }
        inputs.push(one);
        self.sim_hash(inputs)
    }
    pub fn permute<H: AlgebraicHasher<F>>(&mut self, s: H::AlgebraicPermutation) -> H::AlgebraicPermutation {
        use crate::hash::hashing::PlonkyPermutation;
        self.gate("Poseidon2Gate");
        let i: [Target; 12] = s.as_ref().try_into().expect("width 12");
        let o = core::array::from_fn(|_| self.out());
        self.ops.push(Op::Permute { i, o });
        H::AlgebraicPermutation::new(o)
    }

    // ---- recursion
    pub fn verify_proof<C: GenericConfig<D, F = F>>(
        &mut self,
        proof: &ProofWithPublicInputsTarget<D>,
        verifier: &VerifierCircuitTarget,
        common: &CommonCircuitData<F, D>,
    ) where
        C::Hasher: AlgebraicHasher<F>, {
        assert_eq!(proof.public_inputs.len(), common.num_public_inputs);
        for g in RECURSION_GATES { self.gate(g); }
        self.rows += VERIFY_ROWS;
        self.ops.push(Op::Verify {
            tag: proof.proof.tag,
            pis: proof.public_inputs.clone(),
            cap: verifier.constants_sigmas_cap.0.iter().flat_map(|h| h.elements).collect(),
            digest: verifier.circuit_digest.elements.to_vec(),
            common: common.fingerprint(),
        });
    }

    // ---- build
    pub fn build<C: GenericConfig<D, F = F>>(mut self) -> CircuitData<F, C, D> {
        self.gate("PublicInputGate");
        self.gate("NoopGate");
        self.gate("ConstantGate");
        self.gate("ArithmeticGate");
        self.gate("Poseidon2Gate");
        // Targets of another builder with the same numbering may be used.
        let mut virt = self.virt;
        let mut wires = self.wires;
        {
            let mut see = |t: &Target| match t {
                Target::VirtualTarget { index } => virt = virt.max(index + 1),
                Target::Wire(w) => wires = wires.max(w.row + 1),
            };
            for (a, b) in &self.copies { see(a); see(b); }
            for t in &self.public_inputs { see(t); }
            for op in &self.ops { op.targets(&mut see); }
        }
        let id = |t: &Target| -> usize {
            match t { Target::VirtualTarget { index } => *index, Target::Wire(w) => virt + w.row }
        };
        let n = virt + wires;
        let mut rep: Vec<u32> = (0..n as u32).collect();
        fn find(rep: &mut [u32], mut x: u32) -> u32 {
            while rep[x as usize] != x {
                rep[x as usize] = rep[rep[x as usize] as usize];
                x = rep[x as usize];
            }
            x
        }
        for (a, b) in &self.copies {
            let (a, b) = (find(&mut rep, id(a) as u32), find(&mut rep, id(b) as u32));
            if a != b { let (lo, hi) = (a.min(b), a.max(b)); rep[hi as usize] = lo; }
        }
        for i in 0..n { let r = find(&mut rep, i as u32); rep[i] = r; }

        let mut h = Fast::new();
        h.bytes(format!("{:?}", self.config).as_bytes());
        for op in &self.ops {
            op.absorb(&mut h);
            let mut ids = vec![];
            op.targets(&mut |t| ids.push(rep[id(t)]));
            for i in ids { h.u64(u64::from(i)); }
        }
        h.u64(0xdead);
        for t in &self.public_inputs { h.u64(u64::from(rep[id(t)])); }
        let degree_bits = crate::util::log2_ceil(self.num_gates() + 3).max(2);
        h.u64(degree_bits as u64);
        for g in &self.gates { h.bytes(g.as_bytes()); }
        let circuit_digest = HashOut { elements: h.finish().map(F::from_noncanonical_u64) };
        let cap = (0..self.config.fri_config.num_cap_elements())
            .map(|i| {
                h.u64(i as u64);
                HashOut { elements: h.finish().map(F::from_noncanonical_u64) }
            })
            .collect();

        CircuitData {
            verifier_only: VerifierOnlyCircuitData { constants_sigmas_cap: MerkleCap(cap), circuit_digest },
            common: CommonCircuitData {
                config: self.config,
                gates: self.gates.iter().map(|g| GateRef(g.clone(), PhantomData)).collect(),
                num_public_inputs: self.public_inputs.len(),
                degree_bits,
            },
            prover_only: ProverOnlyCircuitData {
                circuit_digest,
                public_inputs: self.public_inputs,
                program: Program { ops: self.ops, virt, wires, rep },
                _c: PhantomData,
            },
        }
    }
}

impl<F: RichField> Op<F> {
    fn targets(&self, f: &mut dyn FnMut(&Target)) {
        match self {
            Op::Arith { a, b, c, o, .. } => { f(a); f(b); f(c); f(o) }
            Op::Const { o, .. } => f(o),
            Op::Hash { i, o } => { i.iter().for_each(&mut *f); o.iter().for_each(&mut *f) }
            Op::Permute { i, o } => { i.iter().for_each(&mut *f); o.iter().for_each(&mut *f) }
            Op::Split { x, o } => { f(x); o.iter().for_each(&mut *f) }
            Op::LowHigh { x, lo, hi, .. } => { f(x); f(lo); f(hi) }
            Op::Range { x, .. } => f(x),
            Op::Eq { x, y, o } | Op::Div { x, y, o } => { f(x); f(y); f(o) }
            Op::Exp { x, bits, o } => { f(x); bits.iter().for_each(&mut *f); f(o) }
            Op::Verify { tag, pis, cap, digest, .. } => {
                tag.iter().for_each(&mut *f);
                pis.iter().for_each(&mut *f);
                cap.iter().for_each(&mut *f);
                digest.iter().for_each(&mut *f)
            }
        }
    }
    fn absorb(&self, h: &mut Fast) {
        match self {
            Op::Arith { c0, c1, .. } => { h.u64(1); h.u64(c0.to_canonical_u64()); h.u64(c1.to_canonical_u64()) }
            Op::Const { v, .. } => { h.u64(2); h.u64(v.to_canonical_u64()) }
            Op::Hash { i, .. } => { h.u64(3); h.u64(i.len() as u64) }
            Op::Permute { .. } => h.u64(4),
            Op::Split { o, .. } => { h.u64(5); h.u64(o.len() as u64) }
            Op::LowHigh { n, bits, .. } => { h.u64(6); h.u64(*n as u64); h.u64(*bits as u64) }
            Op::Range { bits, .. } => { h.u64(7); h.u64(*bits as u64) }
            Op::Eq { .. } => h.u64(8),
            Op::Div { .. } => h.u64(9),
            Op::Exp { bits, .. } => { h.u64(10); h.u64(bits.len() as u64) }
            Op::Verify { common, pis, .. } => { h.u64(11); h.u64(*common); h.u64(pis.len() as u64) }
        }
    }
}

struct Vals<'a, F> {
    p: &'a Program<F>,
    v: Vec<Option<F>>,
}
impl<'a, F: RichField> Vals<'a, F> {
    fn id(&self, t: Target) -> usize {
        let i = match t { Target::VirtualTarget { index } => index, Target::Wire(w) => self.p.virt + w.row };
        self.p.rep[i] as usize
    }
    fn get(&self, t: Target) -> Option<F> { self.v[self.id(t)] }
    fn gets(&self, ts: &[Target]) -> Option<Vec<F>> { ts.iter().map(|t| self.get(*t)).collect() }
    fn set(&mut self, t: Target, x: F) {
        let i = self.id(t);
        match self.v[i] {
            None => self.v[i] = Some(x),
            Some(old) => assert!(
                old == x,
                "Partition containing {:?} was set twice with different values: {} != {}",
                t, old, x
            ),
        }
    }
}

fn fits(x: u64, bits: usize) -> bool { bits >= 64 || x >> bits == 0 }

impl<F: RichField> Program<F> {
    pub fn run(&self, inputs: PartialWitness<F>, pis: &[Target]) -> Vec<F> {
        let mut v = Vals { p: self, v: vec![None; self.virt + self.wires] };
        for t in &inputs.order {
            let known = match t { Target::VirtualTarget { index } => *index < self.virt, Target::Wire(w) => w.row < self.wires };
            if known { v.set(*t, inputs.target_values[t]); }
        }
        let mut pending: Vec<&Op<F>> = self.ops.iter().collect();
        loop {
            let before = pending.len();
            pending.retain(|op| !step(op, &mut v));
            if pending.is_empty() || pending.len() == before { break; }
        }
        assert!(pending.is_empty(), "{} generators weren't run", pending.len());
        pis.iter().map(|t| v.get(*t).expect("public input not set")).collect()
    }
}

fn step<F: RichField>(op: &Op<F>, v: &mut Vals<'_, F>) -> bool {
    fn go<F: RichField>(op: &Op<F>, v: &mut Vals<'_, F>) -> Option<()> {
        match op {
            Op::Arith { c0, c1, a, b, c, o } => {
                // A zero coefficient still routes its operand, as in the real gate.
                let r = *c0 * v.get(*a)? * v.get(*b)? + *c1 * v.get(*c)?;
                v.set(*o, r);
            }
            Op::Const { v: x, o } => v.set(*o, *x),
            Op::Hash { i, o } => {
                let i = v.gets(i)?;
                let h = hash_n_to_hash_no_pad::<F, Poseidon2Permutation<F>>(&i);
                for (t, x) in o.iter().zip(h.elements) { v.set(*t, x); }
            }
            Op::Permute { i, o } => {
                let i: [F; 12] = v.gets(i)?.try_into().unwrap();
                let r = F::poseidon2(i);
                for (t, x) in o.iter().zip(r) { v.set(*t, x); }
            }
            Op::Split { x, o } => {
                let x = v.get(*x)?.to_canonical_u64();
                assert!(fits(x, o.len()), "Integer too large to fit in given number of bits: was set twice with different values");
                for (i, t) in o.iter().enumerate() {
                    v.set(*t, F::from_bool(i < 64 && (x >> i) & 1 == 1));
                }
            }
            Op::LowHigh { x, n, bits, lo, hi } => {
                let x = v.get(*x)?.to_canonical_u64();
                assert!(fits(x, *bits), "Integer too large to fit in given number of bits: was set twice with different values");
                v.set(*lo, F::from_canonical_u64(x & ((1u64 << n) - 1)));
                v.set(*hi, F::from_canonical_u64(x >> n));
            }
            Op::Range { x, bits } => {
                let x = v.get(*x)?.to_canonical_u64();
                assert!(fits(x, *bits), "Integer too large to fit in given number of bits: was set twice with different values");
            }
            Op::Eq { x, y, o } => {
                let e = v.get(*x)? == v.get(*y)?;
                v.set(*o, F::from_bool(e));
            }
            Op::Div { x, y, o } => {
                let (x, y) = (v.get(*x)?, v.get(*y)?);
                let inv = y.try_inverse().expect("Tried to invert zero");
                v.set(*o, x * inv);
            }
            Op::Exp { x, bits, o } => {
                let x = v.get(*x)?;
                let bits = v.gets(bits)?;
                let mut acc = F::ONE;
                for b in bits.iter().rev() {
                    acc = acc.square();
                    if b.is_one() { acc *= x; }
                }
                v.set(*o, acc);
            }
            Op::Verify { tag, pis, cap, digest, common } => {
                let (pis, cap, digest, tags) = (v.gets(pis)?, v.gets(cap)?, v.gets(digest)?, v.gets(tag)?);
                let want = mac(&digest, &cap, &pis, *common);
                assert!(
                    want.elements[..] == tags[..],
                    "Partition containing an inner proof was set twice with different values (inner proof does not verify)"
                );
            }
        }
        Some(())
    }
    go(op, v).is_some()
}
