//! Honest blocks, built through the repository's own provers, and what they must come out as.
use std::collections::{BTreeMap, BTreeSet};

use mozak_recproofs::circuits::{
    accumulate_delta as ad, build_event_root as er, match_delta as md, merge as mg, state_update as su, verify_block as vb, verify_program as vp, verify_tx as vt,
};
use mozak_recproofs::{Event, EventType};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::HashOut;
use plonky2::iop::witness::{PartialWitness, Witness};
use serde::{Deserialize, Serialize};
use simkit::{violate, Ctx, Violation};

use crate::circ::*;
use crate::model::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act { pub addr: u8, pub kind: u8, pub prog: u8, pub val: u8, pub tx: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block { pub acts: Vec<Act> }

#[derive(Clone)]
pub enum Api {
    El(er::LeafProof<F, C, D>), Eb(er::BranchProof<F, C, D>), Ml(mg::LeafProof<F, C, D>), Mb(mg::BranchProof<F, C, D>), Pl(vp::LeafProof<F, C, D>), Pb(vp::BranchProof<F, C, D>),
    Tl(vt::LeafProof<F, C, D>), Tb(vt::BranchProof<F, C, D>), Al(ad::LeafProof<F, C, D>), Ab(ad::BranchProof<F, C, D>), Dl(md::LeafProof<F, C, D>), Db(md::BranchProof<F, C, D>),
    Sl(su::LeafProof<F, C, D>), Sb(su::BranchProof<F, C, D>), Base(vb::BaseProof<F, C, D>), Bk(vb::BlockProof<F, C, D>), Raw,
}
impl Api {
    pub fn proof(&self) -> &Proof {
        match self {
            Api::El(p) => &p.proof, Api::Eb(p) => &p.proof, Api::Ml(p) => &p.proof, Api::Mb(p) => &p.proof, Api::Pl(p) => &p.proof, Api::Pb(p) => &p.proof,
            Api::Tl(p) => &p.proof, Api::Tb(p) => &p.proof, Api::Al(p) => &p.proof, Api::Ab(p) => &p.proof, Api::Dl(p) => &p.proof, Api::Db(p) => &p.proof,
            Api::Sl(p) => &p.proof, Api::Sb(p) => &p.proof, Api::Base(p) => &p.proof, Api::Bk(p) => &p.proof, Api::Raw => unreachable!(),
        }
    }
    /// The same kind of proof with other contents, checked the way its users check it.
    pub fn verify(&self, circuit: usize, with: Proof) -> Result<(), String> {
        let c = lib().c;
        macro_rules! go { ($p:expr, $c:expr, $m:ident) => {{ let mut p = $p.clone(); p.proof = with; $c.$m(p) }} }
        simkit::guarded(|| match self {
            Api::El(p) => go!(p, c.el, verify), Api::Eb(p) => go!(p, c.eb, verify), Api::Ml(p) => go!(p, c.ml, verify), Api::Mb(p) => go!(p, c.mb, verify),
            Api::Pl(p) => go!(p, c.pl, verify), Api::Pb(p) => go!(p, c.pb, verify), Api::Tl(p) => go!(p, c.tl, verify), Api::Tb(p) => go!(p, c.tb, verify),
            Api::Al(p) => go!(p, c.al, verify), Api::Ab(p) => go!(p, c.ab, verify), Api::Dl(p) => go!(p, c.dl, verify), Api::Db(p) => go!(p, c.db, verify),
            Api::Sl(p) => go!(p, c.sl, verify), Api::Sb(p) => go!(p, c.sb[circuit - S1], verify), Api::Base(p) => go!(p, c.bk, verify_base), Api::Bk(p) => go!(p, c.bk, verify),
            Api::Raw => unreachable!(),
        })?
        .map_err(|e| format!("{e:#}"))
    }
}

type R<T = usize> = Result<T, Violation>;
/// Hashes by address.
type Trie = BTreeMap<u8, Vec<F>>;

#[derive(Default)]
pub struct World { pub pool: Vec<Rec>, pub api: Vec<Api> }

fn hh(v: &[F]) -> HashOut<F> { HashOut { elements: v.try_into().unwrap() } }
fn ty(t: u64) -> EventType {
    [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner, EventType::CreditDelta][t as usize]
}

macro_rules! refs {
    ($n:ident, $t:ty, $l:ident, $b:ident) => { fn $n(&self, i: usize) -> $t { match &self.api[i] { Api::$l(p) => p.into(), Api::$b(p) => p.into(), _ => unreachable!() } } };
}
macro_rules! want { ($n:ident, $t:ty, $b:ident) => { fn $n(&self, i: usize) -> &$t { match &self.api[i] { Api::$b(p) => p, _ => unreachable!() } } }; }

impl World {
    refs!(er, er::LeafOrBranchRef<'_, F, C, D>, El, Eb);
    refs!(mg, mg::LeafOrBranchRef<'_, F, C, D>, Ml, Mb);
    refs!(vp, vp::LeafOrBranchRef<'_, F, C, D>, Pl, Pb);
    refs!(vt, vt::LeafOrBranchRef<'_, F, C, D>, Tl, Tb);
    refs!(ad, ad::LeafOrBranchRef<'_, F, C, D>, Al, Ab);
    refs!(md, md::LeafOrBranchRef<'_, F, C, D>, Dl, Db);
    refs!(bk, vb::BaseOrBlockRef<'_, F, C, D>, Base, Bk);
    want!(as_eb, er::BranchProof<F, C, D>, Eb);
    want!(as_mb, mg::BranchProof<F, C, D>, Mb);
    want!(as_pb, vp::BranchProof<F, C, D>, Pb);
    want!(as_tb, vt::BranchProof<F, C, D>, Tb);
    want!(as_ab, ad::BranchProof<F, C, D>, Ab);
    want!(as_db, md::BranchProof<F, C, D>, Db);
    want!(as_sl, su::LeafProof<F, C, D>, Sl);
    want!(as_sb, su::BranchProof<F, C, D>, Sb);

    fn is_leaf(&self, i: usize) -> F { F::from_bool(matches!(self.pool[i].by, EL | ML | PL | TL | AL | DL)) }

    fn put(&mut self, by: usize, p: &Proof, inst: Option<Inst>, api: Api) -> usize {
        self.pool.push(Rec { by, pis: p.public_inputs.clone(), tag: p.proof.tag.elements, inst, honest: true });
        self.api.push(api);
        self.pool.len() - 1
    }

    /// Takes a proof the repository made, or refused to make, of something true.
    fn add(&mut self, ctx: &mut Ctx, kind: usize, made: Result<Result<Api, String>, String>, own: &[(&str, &[F])], kids: &[usize], privs: &[(&'static str, Vec<F>)]) -> R {
        ctx.step(1);
        let view = &lib().views[kind];
        let api = match made {
            Ok(Ok(a)) => a,
            Ok(Err(e)) | Err(e) => violate!("incomplete", "the {} cannot be proved for honest inputs: {e}", name(kind)),
        };
        let mut inst = Inst {
            kind,
            pis: vec![F::ZERO; view.data.common.num_public_inputs],
            kids: kids.iter().map(|k| self.pool[*k].kid(*k)).collect(),
            privs: privs.iter().cloned().collect(),
        };
        for (n, v) in own { for (at, x) in view.field(n).iter().zip(*v) { inst.pis[*at] = *x; } }
        settle(&mut inst, &self.pool);
        let p = api.proof().clone();
        // Nothing is said about the owner of credits that add up to zero, so any value may stand there.
        let said = crate::model::judge(&inst, &self.pool).expect;
        for (at, x) in inst.pis.iter_mut().enumerate() {
            let n = view.field_at(at);
            if !own.iter().any(|(m, _)| *m == n) && !said.iter().any(|(m, _)| *m == n) { *x = p.public_inputs[at]; }
        }
        if let Some(at) = (0..inst.pis.len()).find(|at| inst.pis[*at] != p.public_inputs[*at]) {
            violate!("incomplete", "the {} says {} = {:?}, its inputs imply {:?}", name(kind), view.field_at(at), p.public_inputs[at], inst.pis[at]);
        }
        if let Some(why) = refusal(&inst, &self.pool) { violate!("unsound", "the {} proves what its inputs do not imply: {why}", name(kind)); }
        match prove(&inst, &[]) {
            Ok(q) if q == p => {}
            Ok(_) => violate!("incomplete", "the {} gives two proofs for the same inputs", name(kind)),
            Err(e) => violate!("incomplete", "the {} cannot be proved a second time: {e}", name(kind)),
        }
        if let Err(e) = api.verify(kind, p.clone()) { violate!("incomplete", "an honest {} does not verify: {e}", name(kind)); }
        ctx.log_u64(p.proof.tag.elements[0].to_canonical_u64());
        Ok(self.put(kind, &p, Some(inst), api))
    }

    fn key(c: usize) -> Vec<F> { lib().views[c].key.clone() }

    fn el(&mut self, ctx: &mut Ctx, e: Event<F>) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| c.el.prove(&c.eb, e).map(Api::El).map_err(|e| format!("{e:#}")));
        self.add(ctx, EL, made, &[("verifier", &Self::key(EB)), ("owner", &e.owner)], &[], &[("ty", vec![f(e.ty as u64)]), ("addr", vec![f(e.address)]), ("val", e.value.to_vec())])
    }
    fn al(&mut self, ctx: &mut Ctx, e: Event<F>) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| c.al.prove(&c.ab, e.address, e.owner, e.ty, e.value).map(Api::Al).map_err(|e| format!("{e:#}")));
        self.add(ctx, AL, made, &[("verifier", &Self::key(AB)), ("address", &[f(e.address)])], &[], &[("owner", e.owner.to_vec()), ("ty", vec![f(e.ty as u64)]), ("val", e.value.to_vec())])
    }
    fn pair(&self, l: usize, r: Option<usize>, parts: &[&'static str]) -> Vec<(&'static str, Vec<F>)> {
        let mut v = vec![("left_is_leaf", vec![self.is_leaf(l)]), ("right_is_leaf", vec![self.is_leaf(r.unwrap_or(l))])];
        v.extend(parts.iter().map(|p| (*p, vec![F::from_bool(r.is_none())])));
        v
    }
    /// A node of any of the plain trees, over one or two children.
    fn branch(&mut self, ctx: &mut Ctx, kind: usize, l: usize, r: Option<usize>) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| {
            macro_rules! go { ($c:expr, $w:ident, $api:ident) => { match r { Some(r) => $c.prove(self.$w(l), self.$w(r)), None => $c.prove_one(self.$w(l)) }.map(Api::$api) } }
            match kind { EB => go!(c.eb, er, Eb), AB => go!(c.ab, ad, Ab), DB => go!(c.db, md, Db), _ => unreachable!() }.map_err(|e| format!("{e:#}"))
        });
        let privs = self.pair(l, r, &["partial", "partial2"]);
        self.add(ctx, kind, made, &[], &[l, r.unwrap_or(l)], &privs)
    }
    fn ml(&mut self, ctx: &mut Ctx, a: Option<&Vec<F>>, b: Option<&Vec<F>>) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| c.ml.prove(&c.mb, a.map(|a| hh(a)), b.map(|b| hh(b))).map(Api::Ml).map_err(|e| format!("{e:#}")));
        let z = vec![F::ZERO; 4];
        self.add(ctx, ML, made, &[
            ("verifier", &Self::key(MB)), ("a_present", &[F::from_bool(a.is_some())]), ("a_hash", a.unwrap_or(&z)), ("b_present", &[F::from_bool(b.is_some())]), ("b_hash", b.unwrap_or(&z)),
        ], &[], &[])
    }
    fn mb(&mut self, ctx: &mut Ctx, l: usize, r: usize) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| c.mb.prove(self.mg(l), self.mg(r)).map(Api::Mb).map_err(|e| format!("{e:#}")));
        let privs = self.pair(l, Some(r), &[]);
        self.add(ctx, MB, made, &[], &[l, r], &privs)
    }
    /// Two sets of events become one.
    fn merge(&mut self, ctx: &mut Ctx, a: &Trie, b: &Trie) -> R<(usize, Trie)> {
        let keys: BTreeSet<u8> = a.keys().chain(b.keys()).copied().collect();
        let root = if keys.len() < 2 {
            let k = keys.first().copied().unwrap_or(0);
            let l = self.ml(ctx, a.get(&k), b.get(&k))?;
            let e = self.ml(ctx, None, None)?;
            self.mb(ctx, l, e)?
        } else {
            over(&keys.iter().copied().collect::<Vec<_>>(), HEIGHT, &mut |s| match s { Step::Leaf(k) => self.ml(ctx, a.get(&k), b.get(&k)), Step::Node(l, r) => self.mb(ctx, l, r) })?
        };
        let both = keys.iter().map(|k| (*k, match (a.get(k), b.get(k)) { (Some(a), Some(b)) => h(&cat(&[a, b])), (Some(x), None) | (None, Some(x)) => x.clone(), _ => unreachable!() })).collect();
        Ok((root, both))
    }
    /// The program with its events, which must be those it emitted.
    fn pl(&mut self, ctx: &mut Ctx, p: usize, events: Option<usize>, call: Word, cast: &[F]) -> R {
        let c = lib().c;
        let id = program_word(p);
        let vm = events.map(|e| hh(&self.pool[e].get("vm_hash")));
        let program = c.progs[p].prove(vm, call, hh(cast));
        let pr = self.put(PROG + p, &program, None, Api::Raw);
        let ev = match events {
            Some(e) => e,
            None => {
                let mut w = PartialWitness::new();
                c.pl.event_verifier.set_witness(&mut w, Err(id));
                let t = &c.pl.event_verifier.targets.event_root_proof;
                let g = |x| w.try_get_target(x).expect("set");
                let p = Proof {
                    proof: plonky2::plonk::proof::Proof { tag: HashOut { elements: t.proof.tag.map(g) }, _c: Default::default() },
                    public_inputs: t.public_inputs.iter().map(|x| g(*x)).collect(),
                };
                self.put(ZERO, &p, None, Api::Raw)
            }
        };
        let key = &c.progs[p].circuit.verifier_only;
        let made = simkit::guarded(|| c.pl.prove(&c.pb, key, &program, events.map(|e| self.as_eb(e)).ok_or(id)).map(Api::Pl).map_err(|e| format!("{e:#}")));
        self.add(ctx, PL, made, &[("verifier", &Self::key(PB))], &[pr, ev], &[("program_key", key_of(key)), ("events_present", vec![F::from_bool(events.is_some())])])
    }
    fn set(&mut self, ctx: &mut Ctx, kind: usize, l: usize, r: Option<usize>, merge: usize) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| {
            let m = self.as_mb(merge);
            macro_rules! go { ($c:expr, $w:ident, $api:ident) => { match r { Some(r) => $c.prove(m, self.$w(l), self.$w(r)), None => $c.prove_one(m, self.$w(l)) }.map(Api::$api) } }
            match kind { PB => go!(c.pb, vp, Pb), _ => go!(c.tb, vt, Tb) }.map_err(|e| format!("{e:#}"))
        });
        let privs = self.pair(l, r, if kind == PB { &["partial", "partial2"] } else { &["partial"] });
        self.add(ctx, kind, made, &[], &[l, r.unwrap_or(l), merge], &privs)
    }
    /// Programs into a transaction, or transactions into a block: one after another.
    fn fold(&mut self, ctx: &mut Ctx, kind: usize, items: &[(usize, Trie)]) -> R<(usize, Trie)> {
        let (mut at, mut trie) = items[0].clone();
        if items.len() == 1 {
            let (m, t) = self.merge(ctx, &trie, &Trie::new())?;
            return Ok((self.set(ctx, kind, at, None, m)?, t));
        }
        for (r, t) in &items[1..] {
            let (m, t) = self.merge(ctx, &trie, t)?;
            at = self.set(ctx, kind, at, Some(*r), m)?;
            trie = t;
        }
        Ok((at, trie))
    }
    fn sl(&mut self, ctx: &mut Ctx, addr: u64, touched: bool, old: &[F], new: &[F]) -> R {
        let c = lib().c;
        let made = simkit::guarded(|| c.sl.prove(hh(old), hh(new), touched.then_some(addr)).map(Api::Sl).map_err(|e| format!("{e:#}")));
        let a = if touched { f(addr) } else { -F::ONE };
        self.add(ctx, SL, made, &[("present", &[F::from_bool(touched)]), ("old", old), ("new", new), ("address", &[a])], &[], &[])
    }
    fn sb(&mut self, ctx: &mut Ctx, level: usize, l: usize, r: usize) -> R {
        let c = &lib().c.sb[level];
        let made = simkit::guarded(|| if level == 0 { c.prove(self.as_sl(l), self.as_sl(r)) } else { c.prove(self.as_sb(l), self.as_sb(r)) }.map(Api::Sb).map_err(|e| format!("{e:#}")));
        self.add(ctx, S1 + level, made, &[], &[l, r], &[])
    }
}

#[derive(Clone, Debug)]
struct Obj { owner: Word, lu: u64, credits: F, data: Word }
impl Obj {
    fn hash(&self) -> Vec<F> { h(&cat(&[&self.owner, &[f(self.lu), self.credits], &self.data])) }
}

/// Walks the tree over some addresses: common prefixes are left out.
enum Step { Leaf(u8), Node(usize, usize) }
fn over<E>(keys: &[u8], height: usize, go: &mut impl FnMut(Step) -> Result<usize, E>) -> Result<usize, E> {
    if let [k] = keys { return go(Step::Leaf(*k)); }
    let bit = 1 << (height - 1);
    let (l, r): (Vec<u8>, Vec<u8>) = keys.iter().partition(|k| **k & bit == 0);
    if l.is_empty() { return over(&r, height - 1, go); }
    if r.is_empty() { return over(&l, height - 1, go); }
    let l = over(&l, height - 1, go)?;
    let r = over(&r, height - 1, go)?;
    go(Step::Node(l, r))
}

/// What happens to an object in one block.
#[derive(Default)]
struct Plan { write: Option<Word>, owner: Option<Word>, credits: F }

pub fn build(blocks: &[Block], ctx: &mut Ctx) -> Result<World, Violation> {
    let c = lib().c;
    let mut w = World::default();
    let mut state: Vec<Obj> = (0..1 << HEIGHT).map(|_| Obj { owner: [F::ZERO; 4], lu: 0, credits: F::ZERO, data: [F::ZERO; 4] }).collect();
    let root = |s: &[Obj]| {
        let mut l: Vec<Vec<F>> = s.iter().map(Obj::hash).collect();
        while l.len() > 1 { l = l.chunks(2).map(|p| h(&cat(&[&p[0], &p[1]]))).collect(); }
        l.pop().unwrap()
    };
    let base = root(&state);
    let made = simkit::guarded(|| c.bk.prove_base(hh(&base)).map_err(|e| format!("{e:#}")));
    let mut prev = match made {
        Ok(Ok(p)) => {
            let v = &lib().views[BASE];
            let (q, key) = (&p.proof.public_inputs, World::key(BK));
            let fine = v.get(q, "verifier") == key && v.get(q, "base") == base && v.get(q, "state") == base && v.get(q, "height") == [F::ZERO];
            if !fine { violate!("incomplete", "the base block says {q:?}"); }
            if let Err(e) = Api::Base(p.clone()).verify(BASE, p.proof.clone()) { violate!("incomplete", "the base block does not verify: {e}"); }
            w.put(BASE, &p.proof.clone(), None, Api::Base(p))
        }
        Ok(Err(e)) | Err(e) => violate!("incomplete", "no base block: {e}"),
    };
    let mut height = 0;
    for b in blocks {
        // First what happens to each object, then who says so.
        let mut plan: BTreeMap<u8, Plan> = BTreeMap::new();
        let mut events: Vec<(usize, Event<F>)> = vec![];
        let mut idle: BTreeSet<(usize, usize)> = BTreeSet::new();
        let programs = PROGS as u8;
        for pass in 0..2 {
            for a in &b.acts {
                let (k, tx, val) = (a.addr % (1 << HEIGHT), usize::from(a.tx % 3), value_word(usize::from(a.val % 6)));
                let o = &state[usize::from(k)];
                let none = o.owner == [F::ZERO; 4];
                let p = plan.entry(k).or_default();
                let alive = !none || p.owner.is_some();
                let mut emit = |t: u64, owner: Word, value: Word| events.push((tx, Event { owner, ty: ty(t), address: u64::from(k), value }));
                match (a.kind % 7, pass) {
                    // A new owner, or none.
                    (3, 0) if p.owner.is_none() => {
                        let q = if none { program_word(usize::from(1 + a.prog % (programs - 1))) } else { [F::ZERO; 4] };
                        p.owner = Some(q);
                        emit(3, o.owner, q);
                        emit(4, q, o.owner);
                    }
                    (0, 1) if alive && p.write.is_none() => { p.write = Some(val); emit(0, o.owner, val); }
                    (5, 1) if alive => {
                        let d = u64::from(a.val) * 1000 + u64::from(a.prog);
                        let neg = a.prog % 2 == 1;
                        p.credits += if neg { -f(d) } else { f(d) };
                        emit(5, o.owner, [f(d), F::ZERO, F::ZERO, F::from_bool(neg)]);
                    }
                    (6, 1) => { idle.insert((tx, usize::from(a.prog % programs))); }
                    _ => {}
                }
            }
        }
        // Those who only look.
        for a in &b.acts {
            let (k, tx, who) = (a.addr % (1 << HEIGHT), usize::from(a.tx % 3), program_word(usize::from(a.prog % programs)));
            let o = &state[usize::from(k)];
            let p = plan.entry(k).or_default();
            if o.owner == [F::ZERO; 4] && p.owner.is_none() { continue; }
            let e = |t: u64, value: Word| Event { owner: who, ty: ty(t), address: u64::from(k), value };
            match a.kind % 7 { 2 => events.push((tx, e(2, o.data))), 1 => events.push((tx, e(1, p.write.unwrap_or(o.data)))), _ => {} }
        }
        if events.is_empty() { continue; }
        height += 1;
        ctx.step(events.len() as u64);
        // Every event is seen once by its program and once by its object.
        let mut txs: Vec<(usize, Trie)> = vec![];
        let mut objects: BTreeMap<u8, usize> = BTreeMap::new();
        for t in 0..3 {
            let mut cast: Vec<usize> = vec![];
            let of = |p: usize| program_word(p);
            for (tx, e) in &events {
                let p = (0..PROGS).find(|p| of(*p) == e.owner).unwrap();
                if *tx == t && !cast.contains(&p) { cast.push(p); }
            }
            for (tx, p) in &idle { if *tx == t && !cast.contains(p) { cast.push(*p); } }
            if cast.is_empty() { continue; }
            let cast_root = cast.iter().skip(1).fold(of(cast[0]).to_vec(), |l, p| bytes_h(&cat(&[&l, &of(*p)])));
            let call = value_word(5);
            let mut items = vec![];
            let mut in_tx: BTreeMap<u8, usize> = BTreeMap::new();
            for p in &cast {
                let mine: Vec<Event<F>> = events.iter().filter(|(tx, e)| *tx == t && e.owner == of(*p)).map(|x| x.1).collect();
                let mut roots: BTreeMap<u8, usize> = BTreeMap::new();
                let mut parts: BTreeMap<u8, usize> = BTreeMap::new();
                for e in mine {
                    let (k, leaf, part) = (e.address as u8, w.el(ctx, e)?, w.al(ctx, e)?);
                    let at = match roots.get(&k) { Some(l) => w.branch(ctx, EB, *l, Some(leaf))?, None => leaf };
                    roots.insert(k, at);
                    let at = match parts.get(&k) { Some(l) => w.branch(ctx, AB, *l, Some(part))?, None => part };
                    parts.insert(k, at);
                }
                for (k, r) in parts { let at = match in_tx.get(&k) { Some(l) => w.branch(ctx, AB, *l, Some(r))?, None => r }; in_tx.insert(k, at); }
                let trie: Trie = roots.iter().map(|(k, r)| (*k, w.pool[*r].get("hash"))).collect();
                let keys: Vec<u8> = roots.keys().copied().collect();
                let root = if keys.is_empty() { None } else {
                    let r = over(&keys, HEIGHT, &mut |s| match s { Step::Leaf(k) => Ok(roots[&k]), Step::Node(l, r) => w.branch(ctx, EB, l, Some(r)) })?;
                    Some(if w.pool[r].by == EL { w.branch(ctx, EB, r, None)? } else { r })
                };
                items.push((w.pl(ctx, *p, root, call, &cast_root)?, trie));
            }
            for (k, r) in in_tx { let at = match objects.get(&k) { Some(l) => w.branch(ctx, AB, *l, Some(r))?, None => r }; objects.insert(k, at); }
            let (pb, trie) = w.fold(ctx, PB, &items)?;
            let made = simkit::guarded(|| c.tl.prove(&c.tb, w.as_pb(pb)).map(Api::Tl).map_err(|e| format!("{e:#}")));
            let tl = w.add(ctx, TL, made, &[("verifier", &World::key(TB))], &[pb], &[])?;
            txs.push((tl, trie));
        }
        let (tb, _) = w.fold(ctx, TB, &txs)?;
        // The objects, before and after.
        let before = state.clone();
        let mut deltas: BTreeMap<u8, usize> = BTreeMap::new();
        for (k, part) in &objects {
            let p = &plan[k];
            let o = &mut state[usize::from(*k)];
            let part = if w.pool[*part].by == AL { w.branch(ctx, AB, *part, None)? } else { *part };
            let old = o.clone();
            o.data = p.write.unwrap_or(o.data);
            o.owner = p.owner.unwrap_or(o.owner);
            o.credits += p.credits;
            let changed = p.write.is_some() || p.owner.is_some() || p.credits != F::ZERO;
            if changed { o.lu = height; }
            if o.owner == [F::ZERO; 4] { o.lu = 0; }
            let v = md::LeafWitnessValue {
                block_height: height, last_updated: old.lu, old_owner: old.owner, new_owner: o.owner, old_data: old.data, new_data: o.data,
                old_credits: old.credits.to_canonical_u64(), new_credits: o.credits.to_canonical_u64(),
            };
            let made = simkit::guarded(|| c.dl.prove(&c.db, w.as_ab(part), v).map(Api::Dl).map_err(|e| format!("{e:#}")));
            let flags = w.pool[part].get("flags");
            let dl = w.add(ctx, DL, made, &[("verifier", &World::key(DB))], &[part], &[
                ("height", vec![f(height)]), ("address", vec![f(u64::from(*k))]), ("flags", flags), ("old_owner", old.owner.to_vec()), ("new_owner", o.owner.to_vec()),
                ("old_data", old.data.to_vec()), ("new_data", o.data.to_vec()), ("last_updated", vec![f(old.lu)]), ("old_credits", vec![old.credits]), ("new_credits", vec![o.credits]),
            ])?;
            deltas.insert(*k, dl);
        }
        let keys: Vec<u8> = deltas.keys().copied().collect();
        let mut db = over(&keys, HEIGHT, &mut |s| match s { Step::Leaf(k) => Ok(deltas[&k]), Step::Node(l, r) => w.branch(ctx, DB, l, Some(r)) })?;
        if w.pool[db].by == DL { db = w.branch(ctx, DB, db, None)?; }
        let mut level = vec![];
        for k in 0..state.len() { level.push(w.sl(ctx, k as u64, objects.contains_key(&(k as u8)), &before[k].hash(), &state[k].hash())?); }
        for n in 0..HEIGHT {
            let mut up = vec![];
            for p in level.chunks(2) { up.push(w.sb(ctx, n, p[0], p[1])?); }
            level = up;
        }
        let made = simkit::guarded(|| c.bk.prove(w.as_tb(tb), w.as_db(db), w.as_sb(level[0]), w.bk(prev)).map(Api::Bk).map_err(|e| format!("{e:#}")));
        prev = w.add(ctx, BK, made, &[], &[tb, db, level[0], prev], &[])?;
        let done = &w.pool[prev];
        if done.get("state") != root(&state) || done.get("base") != base || done.get("height") != [f(height)] { violate!("incomplete", "block {height} does not come to the state its events lead to"); }
        ctx.probe("blocks proved");
    }
    Ok(w)
}
