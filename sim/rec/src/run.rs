//! C18: honest blocks, then a prover who may put anything into any circuit.
use std::collections::BTreeMap;

use plonky2::field::types::{Field, PrimeField64};
use serde::{Deserialize, Serialize};
use simkit::{violate, Ctx, Info, Outcome, Prop, Rng};

use crate::circ::*;
use crate::model::*;
use crate::world::{build, Act, Block, World};

/// One alteration of what a prover puts in.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mut {
    /// Public input, private input, inner proof, public input of an inner proof, swap.
    pub what: u8,
    /// Which.
    pub at: u16,
    /// How to change a number.
    pub how: u8,
    /// Taken from here.
    pub from: u32,
    pub salt: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Attack {
    /// An honest run of a circuit, altered; `settle` makes the rest fit, `free` leaves the public inputs to the circuit.
    Forge { rec: u32, muts: Vec<Mut>, settle: bool, free: bool },
    /// A proof presented as one of some circuit.
    Present { rec: u32, kind: u8, muts: Vec<Mut> },
    /// A tree whose branches are of another circuit, and whoever takes it.
    Rogue { kind: u8, rec: u32, muts: Vec<Mut>, user: u32, settle: bool },
}
#[derive(Serialize, Deserialize)]
pub struct Case { blocks: Vec<Block>, attacks: Vec<Attack>, impostor: bool }

pub struct C18;

fn gen_muts(r: &mut Rng, max: u64) -> Vec<Mut> {
    (0..r.range(1, max)).map(|_| Mut { what: r.weighted(&[5, 4, 4, 2, 2]) as u8, at: r.u32() as u16, how: r.below(9) as u8, from: r.u32(), salt: r.u32() }).collect()
}
impl Prop for C18 {
    type Case = Case;
    fn info(&self) -> Info {
        Info {
            id: "C18",
            rule: "a case is one run of up to four blocks built through every circuit's own prover, and a list of attacks; the seed picks the events, which proof each attack starts from and what it alters: public and private inputs, the inner proofs or their public inputs, their order, and trees whose inner nodes come from circuits that accept anything",
            level: "exact",
            quick_runs: 12_000,
            thorough_runs: 500_000,
            components: &[
                ("recproofs circuits: build_event_root, merge, verify_program, verify_tx, accumulate_delta, match_delta, state_update, verify_block", "real"),
                ("recproofs subcircuits, indices, provers and verifiers", "real"),
                ("plonky2 circuit builder and proofs", "stub: the same constraints, evaluated; a proof is a tag only the evaluator can issue"),
                ("program circuits", "stub: bind the program id, accept any events"),
            ],
            assumptions: &["a proof cannot be made for a circuit whose constraints do not hold", "splits into bytes are canonical"],
            unit: "proof attempts",
        }
    }
    fn hang_secs(&self) -> u64 { 120 }
    fn gen(&self, r: &mut Rng, thorough: bool) -> Case {
        let blocks = (0..r.range(1, if thorough { 4 } else { 3 })).map(|_| {
            let few = r.chance(50);
            Block { acts: (0..r.range(1, if thorough { 12 } else { 8 })).map(|_| Act {
                addr: if few { r.below(3) as u8 } else { r.below(8) as u8 }, kind: r.weighted(&[4, 2, 2, 6, 0, 2, 1]) as u8,
                prog: r.below(6) as u8, val: r.below(6) as u8, tx: if few { r.below(2) as u8 } else { r.below(3) as u8 },
            }).collect() }
        }).collect();
        let attacks = (0..r.range(20, if thorough { 150 } else { 60 })).map(|_| match r.weighted(&[12, 3, 3]) {
            0 => Attack::Forge { rec: r.u32(), muts: gen_muts(r, 3), settle: r.chance(60), free: r.chance(15) },
            1 => Attack::Present { rec: r.u32(), kind: r.u8(), muts: if r.chance(40) { gen_muts(r, 1) } else { vec![] } },
            _ => Attack::Rogue { kind: r.below(7) as u8, rec: r.u32(), muts: if r.chance(70) { gen_muts(r, 3) } else { vec![] }, user: r.u32(), settle: r.chance(70) },
        }).collect();
        Case { blocks, attacks, impostor: r.chance(5) }
    }
    fn run(&self, case: &Case, ctx: &mut Ctx) -> Outcome {
        let mut w = build(&case.blocks, ctx)?;
        let honest = w.pool.len();
        let mut s = Sim { w: &mut w, honest, spent: 0 };
        for a in &case.attacks {
            match a {
                Attack::Forge { rec, muts, settle, free } => s.forge(ctx, *rec, muts, *settle, *free)?,
                Attack::Present { rec, kind, muts } => s.present(ctx, *rec, *kind, muts)?,
                Attack::Rogue { kind, rec, muts, user, settle } => s.rogue(ctx, *kind, *rec, muts, *user, *settle)?,
            }
        }
        if s.spent > 0 { ctx.nontrivial = true; }
        if case.impostor { s.impostor(ctx)?; }
        Ok(())
    }
}

struct Sim<'a> { w: &'a mut World, honest: usize, spent: u64 }

fn change(old: F, how: u8, salt: u32, other: F) -> F {
    match how {
        0 => old + F::ONE,
        1 => old - F::ONE,
        2 => F::ZERO,
        3 => F::ONE,
        4 => F::from_canonical_u64(2),
        5 => -F::ONE,
        6 => old + F::from_canonical_u64(1 << (salt % 6)),
        7 => F::from_canonical_u64(Rng::new(u64::from(salt)).u64() % ORDER),
        _ => other,
    }
}

impl Sim<'_> {
    /// The records some circuit's inner slot could be given at all.
    fn fits(&self, reader: usize) -> Vec<usize> {
        let c = &lib().views[reader].data.common;
        (0..self.w.pool.len()).filter(|i| lib().views[self.w.pool[*i].by].data.common == *c && self.w.pool[*i].pis.len() == c.num_public_inputs).collect()
    }
    fn alter_pis(&self, ctx: &mut Ctx, reader: usize, pis: &mut [F], m: &Mut) {
        let v = &lib().views[reader];
        if m.salt % 3 == 0 && !v.fields.is_empty() {
            // A whole field: from another proof, from another field, or a circuit's key.
            let (n, at) = &v.fields[usize::from(m.at) % v.fields.len()];
            let others: Vec<usize> = (0..self.w.pool.len()).filter(|i| self.w.pool[*i].reader() == reader).collect();
            let fill: Vec<F> = match m.how % 4 {
                _ if *n == "verifier" => lib().views[m.from as usize % lib().views.len()].key.clone(),
                0 => vec![F::ZERO; at.len()],
                1 => { let (_, b) = &v.fields[m.from as usize % v.fields.len()]; b.iter().map(|i| pis[*i]).collect() }
                _ if others.is_empty() => return,
                _ => { let o = &self.w.pool[others[m.from as usize % others.len()]]; v.get(&o.pis, n) }
            };
            for (a, x) in at.iter().zip(fill) { pis[*a] = x; }
            ctx.fault("field replaced");
        } else {
            let n = pis.len();
            let at = usize::from(m.at) % n;
            pis[at] = change(pis[at], m.how, m.salt, pis[m.from as usize % n]);
            ctx.fault("public value altered");
        }
    }
    fn alter(&self, ctx: &mut Ctx, i: &mut Inst, m: &Mut) {
        let v = &lib().views[i.kind];
        match m.what {
            1 if !v.privs.is_empty() => {
                let (n, _) = v.privs[usize::from(m.at) % v.privs.len()];
                let same: Vec<usize> = (0..self.w.pool.len()).filter(|r| self.w.pool[*r].by == i.kind && self.w.pool[*r].inst.is_some()).collect();
                let other = m.how == 8 && !same.is_empty();
                let p = i.privs.get_mut(n).unwrap();
                if n == "program_key" {
                    *p = lib().views[PROG + m.from as usize % (PROGS + 1)].key.clone();
                } else if other {
                    *p = self.w.pool[same[m.from as usize % same.len()]].inst.as_ref().unwrap().privs[n].clone();
                } else {
                    let at = m.from as usize % p.len();
                    p[at] = change(p[at], m.how, m.salt, p[0]);
                }
                ctx.fault("private input altered");
            }
            2 if !i.kids.is_empty() => {
                let s = usize::from(m.at) % i.kids.len();
                let fits = self.fits(v.reads[s]);
                let now = i.kids[s].of;
                // Often one of the same maker, so that it looks right.
                let alike: Vec<usize> = fits.iter().copied().filter(|r| self.w.pool[*r].by == self.w.pool[now].by && *r != now).collect();
                let from = if m.how % 3 > 0 && !alike.is_empty() { &alike } else { &fits };
                let k = from[m.from as usize % from.len()];
                i.kids[s] = self.w.pool[k].kid(k);
                if let Some(x) = i.privs.get_mut(["left_is_leaf", "right_is_leaf"].get(s).copied().unwrap_or("")) {
                    if m.salt % 4 > 0 { x[0] = F::from_bool(self.w.pool[k].by + 1 == i.kind); }
                }
                if i.kind == PL && m.salt % 4 > 0 {
                    if s == 0 { i.privs.insert("program_key", lib().views[self.w.pool[k].by].key.clone()); }
                    else { i.privs.insert("events_present", vec![F::from_bool(self.w.pool[k].by != ZERO)]); }
                }
                ctx.fault("inner proof replaced");
            }
            3 if !i.kids.is_empty() => {
                let s = usize::from(m.at) % i.kids.len();
                let mut pis = i.kids[s].pis.clone();
                self.alter_pis(ctx, v.reads[s], &mut pis, &Mut { at: m.salt as u16, salt: m.from, ..m.clone() });
                i.kids[s].pis = pis;
                ctx.fault("inner proof's public value altered");
            }
            4 if i.kids.len() > 1 => {
                let s = usize::from(m.at) % i.kids.len();
                let t = (s + 1) % i.kids.len();
                if i.kids[s].pis.len() == i.kids[t].pis.len() {
                    i.kids.swap(s, t);
                    if m.salt % 4 > 0 && s.max(t) == 1 {
                        if let (Some(a), Some(b)) = (i.privs.get("left_is_leaf").cloned(), i.privs.get("right_is_leaf").cloned()) {
                            i.privs.insert("left_is_leaf", b);
                            i.privs.insert("right_is_leaf", a);
                        }
                    }
                    ctx.fault("inner proofs swapped");
                }
            }
            _ => { let mut pis = i.pis.clone(); self.alter_pis(ctx, i.kind, &mut pis, m); i.pis = pis; }
        }
    }
    /// The circuit must take exactly what it should.
    fn decide(&mut self, ctx: &mut Ctx, mut i: Inst, free: bool) -> Result<Option<usize>, simkit::Violation> {
        ctx.step(1);
        self.spent += 1;
        let skip: Vec<usize> = if free {
            judge(&i, &self.w.pool).expect.iter().flat_map(|(n, _)| lib().views[i.kind].field(n).iter().copied()).collect()
        } else { vec![] };
        let got = prove(&i, &skip);
        if let (true, Ok(p)) = (free, &got) { i.pis.clone_from(&p.public_inputs); }
        let why = refusal(&i, &self.w.pool);
        ctx.log(|| format!("{}: {} {:?}", name(i.kind), if got.is_ok() { "proved" } else { "refused" }, why));
        match (got, why) {
            (Ok(_), Some(why)) => violate!("unsound", "the {} is proved although: {why}", name(i.kind)),
            (Err(e), None) if !free => violate!("incomplete", "the {} cannot be proved although everything fits: {e}", name(i.kind)),
            (Err(_), _) => { ctx.probe("refused"); Ok(None) }
            (Ok(p), None) => {
                ctx.probe("accepted");
                if p.public_inputs != i.pis { violate!("unsound", "the {} is proved for other public inputs than asked", name(i.kind)); }
                if let Some(k) = self.w.pool.iter().position(|r| r.by == i.kind && r.pis == i.pis && r.tag == p.proof.tag.elements) { return Ok(Some(k)); }
                self.w.pool.push(Rec { by: i.kind, pis: i.pis.clone(), tag: p.proof.tag.elements, inst: Some(i), honest: false });
                self.w.api.push(crate::world::Api::Raw);
                Ok(Some(self.w.pool.len() - 1))
            }
        }
    }
    fn targets(&self) -> Vec<usize> { (0..self.w.pool.len()).filter(|i| self.w.pool[*i].inst.is_some()).collect() }

    fn forge(&mut self, ctx: &mut Ctx, rec: u32, muts: &[Mut], fit: bool, free: bool) -> Outcome {
        let t = self.targets();
        if t.is_empty() { return Ok(()); }
        // Every kind of circuit equally often.
        let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for i in t { by.entry(self.w.pool[i].by).or_default().push(i); }
        let kinds: Vec<usize> = by.keys().copied().collect();
        let k = kinds[rec as usize % kinds.len()];
        let r = by[&k][(rec as usize / 64) % by[&k].len()];
        let mut i = self.w.pool[r].inst.clone().unwrap();
        for m in muts { self.alter(ctx, &mut i, m); }
        if fit { settle(&mut i, &self.w.pool); }
        if let Some(n) = self.decide(ctx, i, free)? {
            if n != r { ctx.probe("another true statement proved"); }
        }
        Ok(())
    }

    fn present(&mut self, ctx: &mut Ctx, rec: u32, kind: u8, muts: &[Mut]) -> Outcome {
        ctx.step(1);
        self.spent += 1;
        let r = rec as usize % self.w.pool.len();
        let rec = self.w.pool[r].clone();
        // Mostly as what it is.
        let kind = if kind % 3 > 0 { rec.reader() } else { usize::from(kind / 3) % (BASE + 1) };
        let Some(like) = (0..self.honest).find(|i| self.w.pool[*i].by == kind && !matches!(self.w.api[*i], crate::world::Api::Raw)) else { return Ok(()) };
        let mut p = rec.proof();
        for m in muts { self.alter_pis(ctx, rec.reader(), &mut p.public_inputs, m); }
        let view = &lib().views[kind];
        ctx.fault("proof presented as another's");
        let own = rec.by != ZERO && lib().views[rec.by].key == view.key && lib().views[rec.by].data.common == view.data.common && rec.pis == p.public_inputs;
        // A tree is one circuit's all the way down.
        let rooted = !matches!(kind, EB | MB | PB | TB | AB | DB | BK) || !own || view.get(&p.public_inputs, "verifier") == view.key;
        let got = self.w.api[like].verify(kind, p);
        ctx.log(|| format!("{} presented as {}: {got:?}", name(rec.by), name(kind)));
        match (got, own && rooted) {
            (Ok(()), false) => violate!("unsound", "the {} verifies a proof {}", name(kind), if own { "of a tree of another circuit".into() } else { format!("of the {}, or altered", name(rec.by)) }),
            (Err(e), true) => violate!("incomplete", "the {} does not verify its own proof: {e}", name(kind)),
            _ => Ok(()),
        }
    }

    fn rogue(&mut self, ctx: &mut Ctx, kind: u8, rec: u32, muts: &[Mut], user: u32, fit: bool) -> Outcome {
        let n = usize::from(kind) % EVIL_OF.len();
        let (evil, branch) = (EVIL + n, EVIL_OF[n]);
        let key = lib().views[evil].key.clone();
        let at = |kind: usize, pis: &mut Vec<F>| { for (a, x) in lib().views[kind].field("verifier").iter().zip(&key) { pis[*a] = *x; } };
        let t: Vec<usize> = (0..self.honest).filter(|i| self.w.pool[*i].by == branch).collect();
        if t.is_empty() { return Ok(()); }
        let b = t[rec as usize % t.len()];
        let mut i = self.w.pool[b].inst.clone().unwrap();
        // The inner tree that anyone can make up.
        let slot = if branch == BK { 3 } else { 1 };
        let mut pis = self.w.pool[i.kids[slot].of].pis.clone();
        at(branch, &mut pis);
        if branch == BK && lib().views[BK].get(&pis, "height")[0] == F::ZERO { return Ok(()); }
        for m in muts { self.alter_pis(ctx, branch, &mut pis, &Mut { salt: m.salt | 1, ..m.clone() }); }
        at(branch, &mut pis);
        let Some(p) = prove_rogue(evil, &pis) else { return Ok(()) };
        ctx.fault("inner node of another circuit");
        let k = self.w.pool.len();
        self.w.pool.push(Rec { by: evil, pis, tag: p.proof.tag.elements, inst: None, honest: false });
        self.w.api.push(crate::world::Api::Raw);
        i.kids[slot] = self.w.pool[k].kid(k);
        if branch != BK {
            i.privs.insert("right_is_leaf", vec![F::ZERO]);
            // The other side says it belongs to the same tree: a leaf may, a branch only if it was made so.
            let left = &self.w.pool[i.kids[0].of];
            let Some(mut l) = left.inst.clone() else { return Ok(()) };
            if l.kind == branch { i.kids[0] = i.kids[1].clone(); i.privs.insert("left_is_leaf", vec![F::ZERO]); }
            else {
                at(l.kind, &mut l.pis);
                let Some(k) = self.decide(ctx, l, false)? else { return Ok(()) };
                i.kids[0] = self.w.pool[k].kid(k);
            }
        }
        at(branch, &mut i.pis);
        settle(&mut i, &self.w.pool);
        let Some(tree) = self.decide(ctx, i, false)? else { return Ok(()) };
        ctx.probe("tree with a rogue inner node proved");
        // Whoever takes such a tree must not take this one.
        let users: Vec<(usize, usize)> = (0..self.honest).filter_map(|u| {
            let i = self.w.pool[u].inst.as_ref()?;
            let s = lib().views[i.kind].reads.iter().position(|r| *r == branch && i.kind != branch)?;
            (self.w.pool[i.kids[s].of].by == branch).then_some((u, s))
        }).collect();
        let mut all: Vec<(usize, usize)> = users.iter().copied().filter(|(u, s)| self.w.pool[*u].inst.as_ref().unwrap().kids[*s].of == b).collect();
        if all.is_empty() && !users.is_empty() { all.push(users[user as usize % users.len()]); }
        for (u, s) in all {
            let mut i = self.w.pool[u].inst.clone().unwrap();
            i.kids[s] = self.w.pool[tree].kid(tree);
            if fit { settle(&mut i, &self.w.pool); }
            ctx.fault("rogue tree handed on");
            self.decide(ctx, i, false)?;
        }
        self.present(ctx, tree as u32, 1, &[])
    }

    /// A circuit that is not program 1 but says it is.
    fn impostor(&mut self, ctx: &mut Ctx) -> Outcome {
        let c = lib().c;
        let Some(pl) = (0..self.honest).find(|i| self.w.pool[*i].by == PL && self.w.pool[*i].get("program_id") == program_word(1)) else { return Ok(()) };
        let mut i = self.w.pool[pl].inst.clone().unwrap();
        let old = &self.w.pool[i.kids[0].of];
        let g = |n| old.get(n);
        let root = (g("present")[0] == F::ONE).then(|| plonky2::hash::hash_types::HashOut { elements: g("hash").try_into().unwrap() });
        let p = c.progs[PROGS].prove(root, g("call_list").try_into().unwrap(), plonky2::hash::hash_types::HashOut { elements: g("cast_root").try_into().unwrap() });
        ctx.fault("another circuit claims to be the program");
        i.kids[0] = Kid { of: i.kids[0].of, tag: p.proof.tag.elements, pis: p.public_inputs };
        i.privs.insert("program_key", lib().views[IMPOSTOR].key.clone());
        if prove(&i, &[]).is_ok() { violate!("program-key", "the program leaf takes a proof of any circuit that names the program: nothing ties the program id to the circuit's key"); }
        Ok(())
    }
}
