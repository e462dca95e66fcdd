//! Field elements that write down how they come about: lets a table's constraints be turned into a straight-line program.
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::cell::RefCell;
use std::collections::HashMap;

use super::goldilocks_field::GoldilocksField as F;
use super::packed::PackedField;
use super::types::{Field, PrimeField64};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node { Const(u64), Input(u32), Add(u32, u32), Sub(u32, u32), Mul(u32, u32) }
#[derive(Default)]
struct Tape { nodes: Vec<Node>, seen: HashMap<Node, u32> }
thread_local!(static TAPE: RefCell<Tape> = RefCell::default());

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Sym(pub u32);

fn put(n: Node) -> Sym {
    TAPE.with(|t| {
        let t = &mut *t.borrow_mut();
        if let Some(i) = t.seen.get(&n) { return Sym(*i); }
        t.nodes.push(n);
        let i = t.nodes.len() as u32 - 1;
        t.seen.insert(n, i);
        Sym(i)
    })
}
fn known(i: u32) -> Option<F> { TAPE.with(|t| match t.borrow().nodes[i as usize] { Node::Const(c) => Some(F::from_canonical_u64(c)), _ => None }) }
fn constant(x: F) -> Sym { put(Node::Const(x.to_canonical_u64())) }
/// Starts a new program.
pub fn begin() {
    TAPE.with(|t| *t.borrow_mut() = Tape::default());
    constant(F::ZERO);
    constant(F::ONE);
}
pub fn input(i: u32) -> Sym { put(Node::Input(i)) }
pub fn end() -> Vec<Node> { TAPE.with(|t| std::mem::take(&mut t.borrow_mut().nodes)) }

impl From<F> for Sym { fn from(x: F) -> Self { constant(x) } }
impl Add for Sym {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        match (known(self.0), known(o.0)) {
            (Some(a), Some(b)) => constant(a + b),
            _ if self.0 == 0 => o,
            _ if o.0 == 0 => self,
            _ => put(Node::Add(self.0.min(o.0), self.0.max(o.0))),
        }
    }
}
impl Sub for Sym {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        match (known(self.0), known(o.0)) {
            (Some(a), Some(b)) => constant(a - b),
            _ if o.0 == 0 => self,
            _ => put(Node::Sub(self.0, o.0)),
        }
    }
}
impl Mul for Sym {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        match (known(self.0), known(o.0)) {
            (Some(a), Some(b)) => constant(a * b),
            _ if self.0 == 0 || o.0 == 1 => self,
            _ if o.0 == 0 || self.0 == 1 => o,
            _ => put(Node::Mul(self.0.min(o.0), self.0.max(o.0))),
        }
    }
}
impl Neg for Sym { type Output = Self; fn neg(self) -> Self { Sym(0) - self } }
macro_rules! both { ($($t:ident $f:ident $a:ident $g:ident),*) => { $(
    impl $t<F> for Sym { type Output = Sym; fn $f(self, o: F) -> Sym { $t::$f(self, Sym::from(o)) } }
    impl $t<Sym> for F { type Output = Sym; fn $f(self, o: Sym) -> Sym { $t::$f(Sym::from(self), o) } }
    impl $a for Sym { fn $g(&mut self, o: Sym) { *self = $t::$f(*self, o); } }
    impl $a<F> for Sym { fn $g(&mut self, o: F) { *self = $t::$f(*self, Sym::from(o)); } }
)* } }
both!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign);
impl Sum for Sym { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Sym(0), |a, b| a + b) } }
impl Product for Sym { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Sym(1), |a, b| a * b) } }
unsafe impl PackedField for Sym {
    type Scalar = F;
    const WIDTH: usize = 1;
    const ZEROS: Self = Sym(0);
    const ONES: Self = Sym(1);
    fn from_slice(_: &[F]) -> &Self { unimplemented!() }
    fn as_slice(&self) -> &[F] { unimplemented!() }
}
