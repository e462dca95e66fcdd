//! Every recursion circuit of the repository, with its public fields, private inputs and inner
//! proofs by name.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
use mozak_recproofs::circuits::{
    accumulate_delta as ad, build_event_root as er, match_delta as md, merge as mg, state_update as su, verify_block as vb, verify_program as vp,
    verify_tx as vt,
};
use mozak_recproofs::dummy_circuit;
use mozak_recproofs::indices::{ArrayTargetIndex, BoolTargetIndex, HashOutTargetIndex, TargetIndex, VerifierCircuitTargetIndex};
use mozak_recproofs::subcircuits::{unbounded, unpruned};
pub use mozak_recproofs::test_utils::{C, CONFIG, D, F};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::gates::noop::NoopGate;
use plonky2::hash::hash_types::{HashOut, HashOutTarget};
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::{CircuitData, VerifierCircuitTarget, VerifierOnlyCircuitData};
use plonky2::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};
use simkit::Rng;

pub type Word = [F; 4];
pub type Proof = ProofWithPublicInputs<F, C, D>;
pub type Data = CircuitData<F, C, D>;
pub const ORDER: u64 = 0xffff_ffff_0000_0001;
pub const HEIGHT: usize = 3;

/// Circuits, by number.  Those up to `BK` are attacked.
pub const EL: usize = 0;
pub const EB: usize = 1;
pub const ML: usize = 2;
pub const MB: usize = 3;
pub const PL: usize = 4;
pub const PB: usize = 5;
pub const TL: usize = 6;
pub const TB: usize = 7;
pub const AL: usize = 8;
pub const AB: usize = 9;
pub const DL: usize = 10;
pub const DB: usize = 11;
pub const SL: usize = 12;
/// State branches of height 1, 2 and 3.
pub const S1: usize = 13;
pub const SN: usize = S1 + HEIGHT - 1;
pub const BK: usize = SN + 1;
pub const KINDS: usize = BK + 1;
pub const BASE: usize = KINDS;
/// Proof that a program had no events; its circuit is hidden inside the program leaf.
pub const ZERO: usize = BASE + 1;
/// Circuits of the same shape as the branches, which accept everything.
pub const EVIL: usize = ZERO + 1;
pub const EVIL_OF: [usize; 7] = [EB, MB, PB, TB, AB, DB, BK];
pub const PROG: usize = EVIL + EVIL_OF.len();
pub const PROGS: usize = 6;
/// A circuit that claims to be program 1.
pub const IMPOSTOR: usize = PROG + PROGS;
pub const NAMES: [&str; KINDS] = [
    "event leaf", "event branch", "merge leaf", "merge branch", "program leaf", "program branch", "tx leaf", "tx branch", "accumulate leaf",
    "accumulate branch", "match leaf", "match branch", "state leaf", "state branch 1", "state branch 2", "state branch 3", "block",
];

pub fn name(c: usize) -> String {
    match c {
        c if c < KINDS => NAMES[c].into(),
        BASE => "base block".into(),
        ZERO => "no-events".into(),
        c if c < PROG => format!("rogue {}", NAMES[EVIL_OF[c - EVIL]]),
        IMPOSTOR => "impostor program".into(),
        c => format!("program {}", c - PROG),
    }
}

// ------------------------------------------------------------------- programs

pub fn program_word(p: usize) -> Word {
    if p == 0 { return [F::ZERO; 4]; }
    let mut r = Rng::new(0x18_0000 + p as u64);
    [(); 4].map(|()| F::from_canonical_u64(r.u64() % ORDER))
}
pub fn value_word(v: usize) -> Word {
    match v {
        0 => [F::ZERO; 4],
        1 => [0, 0, 1, 0].map(F::from_canonical_u64),
        _ => { let mut r = Rng::new(0x28_0000 + v as u64); [(); 4].map(|()| F::from_canonical_u64(r.u64() % ORDER)) }
    }
}
pub struct Program {
    id: Word,
    program_hash: [Target; 4],
    events_present: BoolTarget,
    event_root: HashOutTarget,
    call_list: [Target; 4],
    cast_root: HashOutTarget,
    pub circuit: Data,
}
impl Program {
    fn new(id: Word, salt: u64) -> Self {
        let mut b = CircuitBuilder::<F, D>::new(CONFIG);
        let program_hash: [Target; 4] = b.add_virtual_target_arr();
        let events_present = b.add_virtual_bool_target_safe();
        let event_root = b.add_virtual_hash();
        let call_list: [Target; 4] = b.add_virtual_target_arr();
        let cast_root = b.add_virtual_hash();
        b.register_public_inputs(&program_hash);
        b.register_public_input(events_present.target);
        b.register_public_inputs(&event_root.elements);
        b.register_public_inputs(&call_list);
        b.register_public_inputs(&cast_root.elements);
        for (p, v) in program_hash.into_iter().zip(id) {
            let k = b.constant(v);
            b.connect(p, k);
        }
        let _ = b.constant(F::from_canonical_u64(salt));
        b.add_gate(NoopGate, vec![]);
        while b.num_gates() < (1 << 3) { b.add_gate(NoopGate, vec![]); }
        Self { id, program_hash, events_present, event_root, call_list, cast_root, circuit: b.build() }
    }
    fn indices(&self) -> ProgramPublicIndices {
        let p = &self.circuit.prover_only.public_inputs;
        ProgramPublicIndices {
            program_hash: ArrayTargetIndex::new(p, &self.program_hash),
            events_present: BoolTargetIndex::new(p, self.events_present),
            event_root: HashOutTargetIndex::new(p, self.event_root),
            call_list: ArrayTargetIndex::new(p, &self.call_list),
            cast_root: HashOutTargetIndex::new(p, self.cast_root),
        }
    }
    pub fn prove(&self, root: Option<HashOut<F>>, call: Word, cast: HashOut<F>) -> Proof {
        let mut w = PartialWitness::new();
        w.set_target_arr(&self.program_hash, &self.id);
        w.set_bool_target(self.events_present, root.is_some());
        w.set_hash_target(self.event_root, root.unwrap_or_default());
        w.set_target_arr(&self.call_list, &call);
        w.set_hash_target(self.cast_root, cast);
        self.circuit.prove(w).expect("a program can prove its own run")
    }
}

// ------------------------------------------------------------------- circuits

pub struct All {
    pub el: er::LeafCircuit<F, C, D>,
    pub eb: er::BranchCircuit<F, C, D>,
    pub ml: mg::LeafCircuit<F, C, D>,
    pub mb: mg::BranchCircuit<F, C, D>,
    pub pl: vp::LeafCircuit<F, C, D>,
    pub pb: vp::BranchCircuit<F, C, D>,
    pub tl: vt::LeafCircuit<F, C, D>,
    pub tb: vt::BranchCircuit<F, C, D>,
    pub al: ad::LeafCircuit<F, C, D>,
    pub ab: ad::BranchCircuit<F, C, D>,
    pub dl: md::LeafCircuit<F, C, D>,
    pub db: md::BranchCircuit<F, C, D>,
    pub sl: su::LeafCircuit<F, C, D>,
    pub sb: Vec<su::BranchCircuit<F, C, D>>,
    pub bk: vb::Circuit<F, C, D>,
    pub progs: Vec<Program>,
    evil: Vec<Data>,
}

pub struct View {
    pub data: &'static Data,
    pub key: Vec<F>,
    /// Public fields and where they are.
    pub fields: Vec<(&'static str, Vec<usize>)>,
    pub privs: Vec<(&'static str, Vec<Target>)>,
    pub kids: Vec<(&'static str, &'static ProofWithPublicInputsTarget<D>)>,
    /// The circuit whose public fields each inner proof is read with.
    pub reads: Vec<usize>,
}
impl View {
    pub fn field(&self, n: &str) -> &[usize] {
        &self.fields.iter().find(|(f, _)| *f == n).unwrap_or_else(|| panic!("no field {n}")).1
    }
    pub fn get(&self, pis: &[F], n: &str) -> Vec<F> { self.field(n).iter().map(|i| pis[*i]).collect() }
    pub fn field_at(&self, i: usize) -> &'static str { self.fields.iter().find(|(_, l)| l.contains(&i)).map_or("?", |f| f.0) }
}

pub fn key_of(v: &VerifierOnlyCircuitData<C, D>) -> Vec<F> {
    v.constants_sigmas_cap.0.iter().flat_map(|h| h.elements).chain(v.circuit_digest.elements).collect()
}
fn key_targets(v: &VerifierCircuitTarget) -> Vec<Target> {
    v.constants_sigmas_cap.0.iter().flat_map(|h| h.elements).chain(v.circuit_digest.elements).collect()
}

struct Fields { iota: Vec<F>, out: Vec<(&'static str, Vec<usize>)> }
impl Fields {
    fn of(d: &Data) -> Self { Self { iota: (0..d.common.num_public_inputs).map(|i| F::from_canonical_usize(i)).collect(), out: vec![] } }
    fn put(mut self, n: &'static str, v: &[F]) -> Self {
        self.out.push((n, v.iter().map(|f| f.to_canonical_u64() as usize).collect()));
        self
    }
    fn verifier(self, i: &VerifierCircuitTargetIndex) -> Self { let v = key_of(&i.get_field::<C, D>(&self.iota)); self.put("verifier", &v) }
    fn hash(self, n: &'static str, i: &HashOutTargetIndex) -> Self { let v = i.get_field(&self.iota); self.put(n, &v.elements) }
    fn arr<const N: usize>(self, n: &'static str, i: &ArrayTargetIndex<TargetIndex, N>) -> Self { let v = i.get_field(&self.iota); self.put(n, &v) }
    fn one(self, n: &'static str, i: TargetIndex) -> Self { let v = i.get_field(&self.iota); self.put(n, &[v]) }
    fn flag(self, n: &'static str, i: BoolTargetIndex) -> Self { self.one(n, i.0) }
    fn merge(self, m: &mg::core::PublicIndices) -> Self {
        self.flag("a_present", m.a_present).hash("a_hash", &m.a_hash).flag("b_present", m.b_present).hash("b_hash", &m.b_hash)
            .flag("merged_present", m.merged_present).hash("merged_hash", &m.merged_hash)
    }
    fn partial(self, m: &ad::core::PublicIndices) -> Self {
        self.one("address", m.address).one("flags", m.object_flags).arr("old_owner", &m.old_owner).arr("new_owner", &m.new_owner)
            .arr("old_data", &m.old_data).arr("new_data", &m.new_data).one("credits", m.credit_delta)
    }
}
type Privs = Vec<(&'static str, Vec<Target>)>;
type Kids = Vec<(&'static str, &'static ProofWithPublicInputsTarget<D>)>;

fn two(u: &'static unbounded::BranchSubCircuit<D>) -> (Privs, Kids) {
    let t = &u.targets;
    (vec![("left_is_leaf", vec![t.left_is_leaf.target]), ("right_is_leaf", vec![t.right_is_leaf.target])], vec![("left", &t.left_proof), ("right", &t.right_proof)])
}
fn part(u: &unpruned::BranchSubCircuit<unpruned::PartialAllowed>) -> Vec<Target> { vec![u.targets.extension.partial.target] }

pub struct Lib {
    pub c: &'static All,
    pub views: Vec<View>,
}
pub fn lib() -> &'static Lib {
    static L: OnceLock<Lib> = OnceLock::new();
    L.get_or_init(|| simkit::isolated(1, || {
        let c: &'static All = Box::leak(Box::new(build()));
        Lib { c, views: views(c) }
    }))
}

fn build() -> All {
    let cfg = &CONFIG;
    let progs: Vec<Program> = (0..PROGS).map(|p| Program::new(program_word(p), 77)).chain([Program::new(program_word(1), 78)]).collect();
    let el = er::LeafCircuit::new(cfg);
    let eb = er::BranchCircuit::new(cfg, &el);
    let ml = mg::LeafCircuit::new(cfg);
    let mb = mg::BranchCircuit::new(cfg, &ml);
    let pl = vp::LeafCircuit::new(cfg, &progs[0].indices(), &progs[0].circuit.common, &eb);
    let pb = vp::BranchCircuit::new(cfg, &mb, &pl);
    let tl = vt::LeafCircuit::new(cfg, &pb);
    let tb = vt::BranchCircuit::new(cfg, &mb, &tl);
    let al = ad::LeafCircuit::new(cfg);
    let ab = ad::BranchCircuit::new(cfg, &al);
    let dl = md::LeafCircuit::new(cfg, &ab);
    let db = md::BranchCircuit::new(cfg, &dl);
    let sl = su::LeafCircuit::new(cfg);
    let mut sb = vec![su::BranchCircuit::from_leaf(cfg, &sl)];
    while sb.len() < HEIGHT { let b = su::BranchCircuit::from_branch(cfg, sb.last().unwrap()); sb.push(b); }
    let bk = vb::Circuit::new(cfg, &tb, &db, sb.last().unwrap());
    let evil = [&eb.circuit, &mb.circuit, &pb.circuit, &tb.circuit, &ab.circuit, &db.circuit, &bk.circuit].map(|d| dummy_circuit::<C, D>(&d.common, |_| {})).into();
    All { el, eb, ml, mb, pl, pb, tl, tb, al, ab, dl, db, sl, sb, bk, progs, evil }
}

fn views(c: &'static All) -> Vec<View> {
    let mut out: Vec<View> = vec![];
    let mut add = |data: &'static Data, f: Fields, (privs, kids): (Privs, Kids), reads: &[usize]| {
        assert_eq!(kids.len(), reads.len());
        let mut seen: Vec<usize> = f.out.iter().flat_map(|(_, l)| l.iter().copied()).collect();
        seen.sort_unstable();
        // Every public input has a name.
        let n = data.common.num_public_inputs;
        if seen.first().is_some() { seen.dedup(); assert_eq!(seen, (0..n).collect::<Vec<_>>(), "public fields of circuit {}", out.len()); }
        out.push(View { data, key: key_of(&data.verifier_only), fields: f.out, privs, kids, reads: reads.to_vec() });
    };
    let d = &c.el.circuit;
    add(d, Fields::of(d).verifier(&c.el.unbounded.indices.verifier).hash("hash", &c.el.hash.indices.unpruned_hash).hash("vm_hash", &c.el.vm_hash.indices.unpruned_hash)
        .arr("owner", &c.el.event_owner.indices.values),
        (vec![("ty", vec![c.el.targets.event_ty]), ("addr", vec![c.el.targets.event_address]), ("val", c.el.targets.event_value.to_vec())], vec![]), &[]);
    let d = &c.eb.circuit;
    let (mut p, k) = two(&c.eb.unbounded);
    p.push(("partial", part(&c.eb.hash)));
    p.push(("partial2", part(&c.eb.vm_hash)));
    add(d, Fields::of(d).verifier(&c.eb.unbounded.indices.verifier).hash("hash", &c.eb.hash.indices.unpruned_hash).hash("vm_hash", &c.eb.vm_hash.indices.unpruned_hash)
        .arr("owner", &c.eb.event_owner.indices.values), (p, k), &[EB, EB]);
    let d = &c.ml.circuit;
    add(d, Fields::of(d).verifier(&c.ml.unbounded.indices.verifier).merge(&c.ml.merge.indices), (vec![], vec![]), &[]);
    let d = &c.mb.circuit;
    add(d, Fields::of(d).verifier(&c.mb.unbounded.indices.verifier).merge(&c.mb.merge.indices), two(&c.mb.unbounded), &[MB, MB]);
    let d = &c.pl.circuit;
    add(d, Fields::of(d).verifier(&c.pl.unbounded.indices.verifier).hash("program_id", &c.pl.program_id.indices.unpruned_hash).flag("present", c.pl.events.indices.hash_present)
        .hash("hash", &c.pl.events.indices.hash).arr("call_list", &c.pl.call_list.indices.values).arr("cast_root", &c.pl.cast_root.indices.values),
        (vec![("program_key", key_targets(&c.pl.program_verifier.targets.program_verifier)), ("events_present", vec![c.pl.event_verifier.targets.events_present.target])],
         vec![("program", &c.pl.program_verifier.targets.program_proof), ("events", &c.pl.event_verifier.targets.event_root_proof)]), &[PROG, EB]);
    let d = &c.pb.circuit;
    let (mut p, mut k) = two(&c.pb.unbounded);
    p.push(("partial", part(&c.pb.program_id)));
    p.push(("partial2", vec![c.pb.events.targets.partial.target]));
    k.push(("merge", &c.pb.events.targets.proof));
    add(d, Fields::of(d).verifier(&c.pb.unbounded.indices.verifier).hash("program_id", &c.pb.program_id.indices.unpruned_hash).flag("present", c.pb.events.indices.hash_present)
        .hash("hash", &c.pb.events.indices.hash).arr("call_list", &c.pb.call_list.indices.values).arr("cast_root", &c.pb.cast_root.indices.values), (p, k), &[PB, PB, MB]);
    let d = &c.tl.circuit;
    add(d, Fields::of(d).verifier(&c.tl.unbounded.indices.verifier).flag("present", c.tl.events.indices.hash_present).hash("hash", &c.tl.events.indices.hash),
        (vec![], vec![("programs", &c.tl.program_verifier.targets.program_set_proof)]), &[PB]);
    let d = &c.tb.circuit;
    let (mut p, mut k) = two(&c.tb.unbounded);
    p.push(("partial", vec![c.tb.events.targets.partial.target]));
    k.push(("merge", &c.tb.events.targets.proof));
    add(d, Fields::of(d).verifier(&c.tb.unbounded.indices.verifier).flag("present", c.tb.events.indices.hash_present).hash("hash", &c.tb.events.indices.hash), (p, k), &[TB, TB, MB]);
    let d = &c.al.circuit;
    let t = &c.al.partial_state.targets;
    add(d, Fields::of(d).verifier(&c.al.unbounded.indices.verifier).hash("event_hash", &c.al.event_hash.indices.unpruned_hash).partial(&c.al.partial_state.indices),
        (vec![("owner", t.event_owner.to_vec()), ("ty", vec![t.event_ty]), ("val", t.event_value.to_vec())], vec![]), &[]);
    let d = &c.ab.circuit;
    let (mut p, k) = two(&c.ab.unbounded);
    p.push(("partial", part(&c.ab.event_hash)));
    p.push(("partial2", vec![c.ab.partial_state.targets.partial.target]));
    add(d, Fields::of(d).verifier(&c.ab.unbounded.indices.verifier).hash("event_hash", &c.ab.event_hash.indices.unpruned_hash).partial(&c.ab.partial_state.indices), (p, k), &[AB, AB]);
    let d = &c.dl.circuit;
    let t = &c.dl.compare_delta.targets;
    let p = vec![
        ("height", vec![t.block_height]), ("address", vec![t.address]), ("flags", vec![t.object_flags]), ("old_owner", t.old_owner.to_vec()), ("new_owner", t.new_owner.to_vec()),
        ("old_data", t.old_data.to_vec()), ("new_data", t.new_data.to_vec()), ("last_updated", vec![t.last_updated]), ("old_credits", vec![t.old_credits]), ("new_credits", vec![t.new_credits]),
    ];
    add(d, Fields::of(d).verifier(&c.dl.unbounded.indices.verifier).hash("event_hash", &c.dl.event_hash.indices.unpruned_hash).hash("state_hash", &c.dl.state_hash.indices.unpruned_hash)
        .arr("height", &c.dl.block_height.indices.values), (p, vec![("events", &c.dl.targets.accumulate_event)]), &[AB]);
    let d = &c.db.circuit;
    let (mut p, k) = two(&c.db.unbounded);
    p.push(("partial", part(&c.db.event_hash)));
    p.push(("partial2", part(&c.db.state_hash)));
    add(d, Fields::of(d).verifier(&c.db.unbounded.indices.verifier).hash("event_hash", &c.db.event_hash.indices.unpruned_hash).hash("state_hash", &c.db.state_hash.indices.unpruned_hash)
        .arr("height", &c.db.block_height.indices.values), (p, k), &[DB, DB]);
    let d = &c.sl.circuit;
    add(d, Fields::of(d).flag("present", c.sl.summarized.indices.summary_hash_present).hash("summary", &c.sl.summarized.indices.summary_hash).hash("old", &c.sl.old.indices.unpruned_hash)
        .hash("new", &c.sl.new.indices.unpruned_hash).one("address", c.sl.address.indices.node_address), (vec![], vec![]), &[]);
    for (i, s) in c.sb.iter().enumerate() {
        let d = &s.circuit;
        add(d, Fields::of(d).flag("present", s.summarized.indices.summary_hash_present).hash("summary", &s.summarized.indices.summary_hash).hash("old", &s.old.indices.unpruned_hash)
            .hash("new", &s.new.indices.unpruned_hash).one("address", s.address.indices.node_address),
            (vec![], vec![("left", &s.bounded.targets.left_proof), ("right", &s.bounded.targets.right_proof)]), &[SL + i, SL + i]);
    }
    let block = |d| {
        let i = &c.bk.block.indices;
        Fields::of(d).verifier(&i.verifier).hash("base", &i.base_state_root).hash("state", &i.state_root).one("height", i.block_height)
    };
    let d = &c.bk.circuit;
    add(d, block(d), (vec![], vec![("tx", &c.bk.tx.targets.proof), ("match", &c.bk.match_delta.targets.proof), ("update", &c.bk.state_update.targets.proof), ("prev", &c.bk.block.prev_proof)]), &[TB, DB, SN, BK]);
    let d = &c.bk.block.dummy;
    add(d, block(d), (vec![], vec![]), &[]);
    // The circuit of proofs without events cannot be seen: its key is not used.
    add(&c.eb.circuit, Fields { iota: vec![], out: vec![] }, (vec![], vec![]), &[]);
    for d in &c.evil { add(d, Fields { iota: vec![], out: vec![] }, (vec![], vec![]), &[]); }
    for p in &c.progs {
        let d = &p.circuit;
        let i = p.indices();
        add(d, Fields::of(d).arr("program_id", &i.program_hash).flag("present", i.events_present).hash("hash", &i.event_root).arr("call_list", &i.call_list).hash("cast_root", &i.cast_root), (vec![], vec![]), &[]);
    }
    out
}

/// What a prover puts into a circuit: everything that is not computed.
#[derive(Clone, Debug)]
pub struct Inst {
    pub kind: usize,
    pub pis: Vec<F>,
    pub kids: Vec<Kid>,
    pub privs: BTreeMap<&'static str, Vec<F>>,
}
#[derive(Clone, Debug)]
pub struct Kid {
    /// Which proof.
    pub of: usize,
    pub tag: [F; 4],
    /// Its public inputs, possibly not the ones it was made for.
    pub pis: Vec<F>,
}

/// Runs the real circuit on everything, or with the listed public inputs left to the circuit.
pub fn prove(i: &Inst, skip: &[usize]) -> Result<Proof, String> {
    let v = &lib().views[i.kind];
    simkit::guarded(|| {
        let mut w = PartialWitness::new();
        for (n, (t, x)) in v.data.prover_only.public_inputs.iter().zip(&i.pis).enumerate() {
            if !skip.contains(&n) { w.set_target(*t, *x); }
        }
        for (n, ts) in &v.privs { w.set_target_arr(ts, &i.privs[n]); }
        for ((_, t), k) in v.kids.iter().zip(&i.kids) {
            w.set_target_arr(&t.public_inputs, &k.pis);
            w.set_target_arr(&t.proof.tag, &k.tag);
        }
        v.data.prove(w).map_err(|e| format!("{e:#}"))
    })?
}
/// Any proof at all from a circuit that accepts everything.
pub fn prove_rogue(c: usize, pis: &[F]) -> Option<Proof> {
    let d = lib().views[c].data;
    if d.common.num_public_inputs != pis.len() { return None; }
    simkit::guarded(|| {
        let mut w = PartialWitness::new();
        w.set_target_arr(&d.prover_only.public_inputs, pis);
        d.prove(w).ok()
    }).ok()?
}
