//! What each circuit must insist on, stated on its public fields, private inputs and inner proofs.
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::config::Hasher;

use crate::circ::*;

/// A proof that exists.
#[derive(Clone)]
pub struct Rec {
    /// The circuit that made it.
    pub by: usize,
    pub pis: Vec<F>,
    pub tag: [F; 4],
    /// What went into it, if it came from a circuit under test.
    pub inst: Option<Inst>,
    pub honest: bool,
}
impl Rec {
    pub fn kid(&self, of: usize) -> Kid { Kid { of, tag: self.tag, pis: self.pis.clone() } }
    pub fn get(&self, n: &str) -> Vec<F> { lib().views[self.reader()].get(&self.pis, n) }
    /// The circuit whose fields describe this proof.
    pub fn reader(&self) -> usize {
        match self.by {
            ZERO => EB,
            c if (EVIL..PROG).contains(&c) => EVIL_OF[c - EVIL],
            c => c,
        }
    }
    pub fn proof(&self) -> Proof { Proof { proof: plonky2::plonk::proof::Proof { tag: plonky2::hash::hash_types::HashOut { elements: self.tag }, _c: Default::default() }, public_inputs: self.pis.clone() } }
}

pub fn h(v: &[F]) -> Vec<F> { Poseidon2Hash::hash_no_pad(v).elements.to_vec() }
pub fn bytes_h(v: &[F]) -> Vec<F> {
    h(&v.iter().flat_map(|f| f.to_canonical_u64().to_le_bytes()).map(F::from_canonical_u8).collect::<Vec<_>>())
}
pub fn cat(v: &[&[F]]) -> Vec<F> { v.concat() }
pub fn f(x: u64) -> F { F::from_canonical_u64(x) }
fn is_bool(x: F) -> bool { x == F::ZERO || x == F::ONE }
fn or(a: F, b: F) -> F { a + b - a * b }
/// One of two, by a flag which need not be one in a rogue proof.
fn select(b: F, x: &[F], y: &[F]) -> Vec<F> { x.iter().zip(y).map(|(x, y)| b * *x + *y - b * *y).collect() }
fn zero(v: &[F]) -> bool { v.iter().all(|x| *x == F::ZERO) }
fn hash_or_forward(lp: F, l: &[F], rp: F, r: &[F]) -> Vec<F> {
    let sum: Vec<F> = l.iter().zip(r).map(|(a, b)| *a + *b).collect();
    select(lp * rp, &h(&cat(&[l, r])), &sum)
}
fn bits(x: F) -> Option<[bool; 5]> {
    let x = x.to_canonical_u64();
    (x < 32).then(|| [0, 1, 2, 3, 4].map(|i| x >> i & 1 == 1))
}

enum Key { Of(usize), Zero, Is(Vec<F>) }

#[derive(Default)]
pub struct Verdict {
    /// Fields whose value follows from the rest.
    pub expect: Vec<(&'static str, Vec<F>)>,
    pub bad: Vec<String>,
}

struct J<'a> { i: &'a Inst, v: &'static View, pool: &'a [Rec], out: Verdict }
impl J<'_> {
    fn need(&mut self, c: bool, why: &str) { if !c { self.out.bad.push(why.into()); } }
    fn pi(&self, n: &str) -> Vec<F> { self.v.get(&self.i.pis, n) }
    fn one(&self, n: &str) -> F { self.pi(n)[0] }
    fn priv_(&self, n: &str) -> &[F] { &self.i.privs[n] }
    fn is(&mut self, n: &'static str, v: Vec<F>) { self.out.expect.push((n, v)); }
    fn slot(&self, s: &str) -> usize { self.v.kids.iter().position(|k| k.0 == s).unwrap() }
    fn k(&self, s: &str, n: &str) -> Vec<F> {
        let j = self.slot(s);
        lib().views[self.v.reads[j]].get(&self.i.kids[j].pis, n)
    }
    fn k1(&self, s: &str, n: &str) -> F { self.k(s, n)[0] }
    fn made_by(&mut self, s: &str, key: Key) {
        let j = self.slot(s);
        let kid = &self.i.kids[j];
        let r = &self.pool[kid.of];
        let key_ok = match key {
            Key::Zero => r.by == ZERO,
            Key::Of(c) => r.by != ZERO && lib().views[r.by].key == lib().views[c].key,
            Key::Is(k) => r.by != ZERO && lib().views[r.by].key == k,
        };
        let shape = lib().views[r.by].data.common == lib().views[self.v.reads[j]].data.common;
        self.need(key_ok, &format!("{s}: wrong circuit"));
        self.need(shape, &format!("{s}: wrong shape"));
        self.need(r.pis == kid.pis && r.tag == kid.tag, &format!("{s}: public inputs not the proved ones"));
    }
    /// A tree made by a known branch circuit: all of it.
    fn tree(&mut self, s: &str, c: usize) {
        self.made_by(s, Key::Of(c));
        self.rooted(s, c);
    }
    fn rooted(&mut self, s: &str, c: usize) {
        let ok = self.k(s, "verifier") == lib().views[c].key;
        self.need(ok, &format!("{s}: tree of another circuit inside"));
    }
    fn unbounded(&mut self, leaf: usize) {
        for (s, p) in [("left", "left_is_leaf"), ("right", "right_is_leaf")] {
            let b = self.priv_(p)[0];
            self.need(is_bool(b), "leaf flag");
            let own = self.pi("verifier");
            let same = self.k(s, "verifier") == own;
            self.need(same, &format!("{s}: other verifier"));
            self.made_by(s, if b == F::ONE { Key::Of(leaf) } else { Key::Is(own) });
        }
        // Both children say so, so this is what it is.
        let v = self.k("left", "verifier");
        self.is("verifier", v);
    }
    fn partial(&mut self) -> F {
        let (a, b) = (self.priv_("partial")[0], self.priv_("partial2")[0]);
        self.need(is_bool(a) && a == b, "partial flags");
        a
    }
    fn unpruned(&mut self, n: &'static str, partial: F, vm: bool) {
        let (l, r) = (self.k("left", n), self.k("right", n));
        let both = cat(&[&l, &r]);
        let x = if vm { bytes_h(&both) } else { h(&both) };
        self.is(n, select(partial, &l, &x));
    }
    fn same(&mut self, n: &'static str) {
        let (l, r) = (self.k("left", n), self.k("right", n));
        self.need(l == r, &format!("{n} differs"));
        self.is(n, l);
    }
    fn flag(&mut self, n: &str) { let b = is_bool(self.one(n)); self.need(b, n) }
    fn embed(&mut self, partial: F) {
        self.need(is_bool(partial), "partial flag");
        self.tree("merge", MB);
        let keep = F::ONE - partial;
        let b_present = vec![keep * self.k1("right", "present")];
        let b_hash: Vec<F> = self.k("right", "hash").iter().map(|x| keep * *x).collect();
        for (n, v) in [("a_present", self.k("left", "present")), ("a_hash", self.k("left", "hash")), ("b_present", b_present), ("b_hash", b_hash)] {
            let ok = self.k("merge", n) == v;
            self.need(ok, &format!("merge: {n}"));
        }
        let (p, m) = (self.k("merge", "merged_present"), self.k("merge", "merged_hash"));
        self.is("present", p);
        self.is("hash", m);
        self.flag("present");
    }
}

pub fn judge(i: &Inst, pool: &[Rec]) -> Verdict {
    let mut j = J { i, v: &lib().views[i.kind], pool, out: Verdict::default() };
    match i.kind {
        EL => {
            let (ty, addr, val) = (j.priv_("ty").to_vec(), j.priv_("addr").to_vec(), j.priv_("val").to_vec());
            let owner = j.pi("owner");
            j.is("hash", h(&cat(&[&owner, &ty, &addr, &val])));
            j.is("vm_hash", bytes_h(&cat(&[&ty, &addr, &val])));
        }
        EB => {
            j.unbounded(EL);
            let p = j.partial();
            j.unpruned("hash", p, false);
            j.unpruned("vm_hash", p, true);
            j.same("owner");
        }
        ML => {
            for n in ["a_present", "b_present", "merged_present"] { j.flag(n); }
            let (ap, a, bp, b) = (j.one("a_present"), j.pi("a_hash"), j.one("b_present"), j.pi("b_hash"));
            j.need(zero(&a) || ap == F::ONE, "absent a has a hash");
            j.need(zero(&b) || bp == F::ONE, "absent b has a hash");
            j.is("merged_present", vec![or(ap, bp)]);
            j.is("merged_hash", hash_or_forward(ap, &a, bp, &b));
        }
        MB => {
            j.unbounded(ML);
            for (p, n) in [("a_present", "a_hash"), ("b_present", "b_hash"), ("merged_present", "merged_hash")] {
                j.flag(p);
                let (lp, l, rp, r) = (j.k1("left", p), j.k("left", n), j.k1("right", p), j.k("right", n));
                j.is(p, vec![or(lp, rp)]);
                j.is(n, hash_or_forward(lp, &l, rp, &r));
            }
        }
        PL => {
            let key = j.priv_("program_key").to_vec();
            j.made_by("program", Key::Is(key));
            let present = j.k1("program", "present");
            j.need(is_bool(present) && present == j.priv_("events_present")[0], "presence of events");
            if present == F::ONE { j.tree("events", EB); } else { j.made_by("events", Key::Zero); }
            let id = j.k("program", "program_id");
            let (owner, vm) = (j.k("events", "owner") == id, j.k("events", "vm_hash") == j.k("program", "hash"));
            j.need(owner, "events of another program");
            j.need(vm, "events the program did not emit");
            j.is("program_id", id);
            j.is("present", vec![present]);
            for (n, s, m) in [("hash", "events", "hash"), ("call_list", "program", "call_list"), ("cast_root", "program", "cast_root")] {
                let x = j.k(s, m);
                j.is(n, x);
            }
        }
        PB => {
            j.unbounded(PL);
            let p = j.partial();
            j.unpruned("program_id", p, true);
            j.same("call_list");
            j.same("cast_root");
            j.embed(p);
        }
        TL => {
            j.tree("programs", PB);
            let ok = j.k("programs", "cast_root") == j.k("programs", "program_id");
            j.need(ok, "the cast is not the programs");
            for n in ["present", "hash"] { let x = j.k("programs", n); j.is(n, x); }
            j.flag("present");
        }
        TB => {
            j.unbounded(TL);
            let p = j.priv_("partial")[0];
            j.embed(p);
        }
        AL => {
            let (owner, ty, val) = (j.priv_("owner").to_vec(), j.priv_("ty")[0].to_canonical_u64(), j.priv_("val").to_vec());
            let t = j.priv_("ty").to_vec();
            let addr = j.pi("address");
            j.is("event_hash", h(&cat(&[&owner, &t, &addr, &val])));
            // Write, ensure, read, give, take.
            j.is("flags", vec![f(if ty < 5 { 1 << ty } else { 0 })]);
            match ty { 0 | 3 | 5 => j.is("old_owner", owner.clone()), 4 => j.is("old_owner", val.clone()), _ => {} }
            match ty { 3 => j.is("new_owner", val.clone()), 4 => j.is("new_owner", owner), _ => {} }
            if ty == 2 { j.is("old_data", val.clone()); }
            if ty == 0 || ty == 1 { j.is("new_data", val.clone()); }
            let credits = if ty == 5 {
                j.need(val[0].to_canonical_u64() < 1 << 40, "too many credits");
                j.need(is_bool(val[3]), "credit sign");
                if val[3] == F::ONE { -val[0] } else { val[0] }
            } else { F::ZERO };
            j.is("credits", vec![credits]);
        }
        AB => {
            j.unbounded(AL);
            let p = j.partial();
            j.unpruned("event_hash", p, false);
            j.same("address");
            let keep = F::ONE - p;
            let (lf, rf) = (bits(j.k1("left", "flags")), bits(keep * j.k1("right", "flags")));
            let (lc, rc) = (j.k1("left", "credits"), keep * j.k1("right", "credits"));
            j.is("credits", vec![lc + rc]);
            j.need(lf.is_some() && rf.is_some(), "flags of a child");
            if let (Some(l), Some(r)) = (lf, rf) {
                for n in [0, 3, 4] { j.need(!(l[n] && r[n]), "written or moved twice"); }
                j.is("flags", vec![f((0..5).filter(|n| l[*n] || r[*n]).map(|n| 1 << n).sum())]);
                for (s, b, c) in [("left", l, lc), ("right", r, rc)] {
                    let moves = b[3] || b[4];
                    let has = [("old_owner", b[0] || moves || c != F::ZERO), ("new_owner", moves), ("old_data", b[2]), ("new_data", b[0] || b[1])];
                    for (n, on) in has { if on { let x = j.k(s, n); j.is(n, x); } }
                }
            }
        }
        DL => {
            j.tree("events", AB);
            for n in ["address", "flags"] { let ok = j.priv_(n) == &j.k("events", n)[..]; j.need(ok, n); }
            let x = j.k("events", "event_hash");
            j.is("event_hash", x);
            let g = |j: &J, n: &str| j.priv_(n).to_vec();
            let (oo, no, od, nd) = (g(&j, "old_owner"), g(&j, "new_owner"), g(&j, "old_data"), g(&j, "new_data"));
            let (lu, oc, nc, height, addr) = (g(&j, "last_updated"), g(&j, "old_credits"), g(&j, "new_credits"), g(&j, "height"), g(&j, "address"));
            let b = bits(j.priv_("flags")[0]);
            j.need(b.is_some(), "flags");
            let b = b.unwrap_or_default();
            let credits = j.k1("events", "credits");
            let moves = b[3] || b[4];
            for (n, on, mine) in [("old_owner", b[0] || moves || credits != F::ZERO, &oo), ("new_owner", moves, &no), ("old_data", b[2], &od), ("new_data", b[0] || b[1], &nd)] {
                let ok = !on || *mine == j.k("events", n);
                j.need(ok, n);
            }
            j.need(nc[0] - oc[0] == credits, "credits");
            j.need(b[3] == b[4], "half a change of owner");
            j.need(od == nd || b[0], "data changed without a write");
            let (create, delete) = (zero(&oo), zero(&no));
            j.need(u8::from(create) + u8::from(delete) + u8::from(oo == no) == 1, "owner change");
            j.need((create || delete) == b[3], "owner change without a transfer");
            let updated = b[3] || b[0] || oc != nc;
            let lu2 = if delete { vec![F::ZERO] } else if updated { height.clone() } else { lu.clone() };
            let old = h(&cat(&[&oo, &lu, &oc, &od]));
            let new = h(&cat(&[&no, &lu2, &nc, &nd]));
            j.is("state_hash", h(&cat(&[&addr, &old, &new])));
            j.is("height", height);
        }
        DB => {
            j.unbounded(DL);
            let p = j.partial();
            j.unpruned("event_hash", p, false);
            j.unpruned("state_hash", p, false);
            j.same("height");
        }
        SL => {
            let (old, new, addr, p) = (j.pi("old"), j.pi("new"), j.pi("address"), j.one("present"));
            j.flag("present");
            j.need((p == F::ONE) == (addr[0] != -F::ONE), "presence and address");
            j.need(old == new || p == F::ONE, "changed in silence");
            j.is("summary", h(&cat(&[&addr, &old, &new])).iter().map(|x| p * *x).collect());
        }
        S1..=SN => {
            let below = i.kind - 1;
            for s in ["left", "right"] { j.made_by(s, Key::Of(below)); }
            let (lp, rp) = (j.k1("left", "present"), j.k1("right", "present"));
            let (ls, rs) = (j.k("left", "summary"), j.k("right", "summary"));
            j.is("present", vec![or(lp, rp)]);
            j.is("summary", hash_or_forward(lp, &ls, rp, &rs));
            for n in ["old", "new"] { j.unpruned(n, F::ZERO, false); }
            let half = F::from_canonical_u64(2).inverse();
            let (la, ra) = (j.k1("left", "address"), j.k1("right", "address"));
            let (l, r) = (la * half, (ra - F::ONE) * half);
            j.need(l == r || lp * rp != F::ONE, "not siblings");
            j.is("address", select(or(lp, rp), &select(lp, &[l], &[r]), &[la]));
        }
        BK => {
            j.tree("tx", TB);
            j.tree("match", DB);
            j.made_by("update", Key::Of(SN));
            let checks = [
                ("events", j.k("tx", "hash") == j.k("match", "event_hash")),
                ("changes", j.k("match", "state_hash") == j.k("update", "summary")),
                ("no changes", j.k1("update", "present") == F::ONE),
                ("not the root", j.k1("update", "address") == F::ZERO),
                ("previous state", j.k("update", "old") == j.k("prev", "state")),
            ];
            for (n, ok) in checks { j.need(ok, n); }
            let base = j.k1("prev", "height") == F::ZERO;
            let own = j.pi("verifier");
            j.made_by("prev", if base { Key::Of(BASE) } else { Key::Is(own) });
            let ok = !base || j.k("prev", "state") == j.k("prev", "base");
            j.need(ok, "base state");
            let (h, m) = (j.k1("prev", "height") + F::ONE, j.k1("match", "height"));
            j.need(h == m, "height of the changes");
            j.is("height", vec![h]);
            for (n, s, m) in [("verifier", "prev", "verifier"), ("base", "prev", "base"), ("state", "update", "new")] { let x = j.k(s, m); j.is(n, x); }
        }
        k => unreachable!("{k}"),
    }
    j.out
}

/// Nothing when the circuit must accept this; otherwise why it must not.
pub fn refusal(i: &Inst, pool: &[Rec]) -> Option<String> {
    let v = judge(i, pool);
    let view = &lib().views[i.kind];
    v.bad.into_iter().next().or_else(|| v.expect.iter().find(|(n, x)| view.get(&i.pis, n) != *x).map(|(n, _)| format!("{n} is not what follows")))
}

/// Puts every field that follows from the rest in place.
pub fn settle(i: &mut Inst, pool: &[Rec]) {
    let view = &lib().views[i.kind];
    for _ in 0..3 {
        for (n, x) in judge(i, pool).expect {
            for (at, v) in view.field(n).iter().zip(x) { i.pis[*at] = v; }
        }
    }
}
