use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use serde::{Deserialize, Serialize};

use super::goldilocks_field::GoldilocksField;
use super::types::{Field, Sample};

pub trait OEF<const D: usize>: FieldExtension<D> {
    const W: Self::BaseField;
}
impl<F: Field> OEF<1> for F { const W: F = F::ONE; }

pub trait Extendable<const D: usize>: Field + Sized {
    type Extension: Field + OEF<D, BaseField = Self> + From<Self>;
    const W: Self;
}
impl<F: Field + FieldExtension<1, BaseField = F>> Extendable<1> for F {
    type Extension = F;
    const W: F = F::ZERO;
}

pub trait FieldExtension<const D: usize>: Field {
    type BaseField: Field;
    fn to_basefield_array(&self) -> [Self::BaseField; D];
    fn from_basefield_array(arr: [Self::BaseField; D]) -> Self;
    fn from_basefield(x: Self::BaseField) -> Self;
    fn is_in_basefield(&self) -> bool { self.to_basefield_array()[1..].iter().all(|x| x.is_zero()) }
    fn scalar_mul(&self, s: Self::BaseField) -> Self {
        let mut a = self.to_basefield_array();
        a.iter_mut().for_each(|x| *x *= s);
        Self::from_basefield_array(a)
    }
}
impl<F: Field> FieldExtension<1> for F {
    type BaseField = F;
    fn to_basefield_array(&self) -> [F; 1] { [*self] }
    fn from_basefield_array(a: [F; 1]) -> Self { a[0] }
    fn from_basefield(x: F) -> Self { x }
}

pub mod quadratic {
    pub use super::QuadraticExtension;
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
#[serde(bound = "")]
pub struct QuadraticExtension<F: Field>(pub [F; 2]);

type G = GoldilocksField;
type E = QuadraticExtension<G>;
const W7: G = GoldilocksField(7);

impl Extendable<2> for G {
    type Extension = E;
    const W: G = W7;
}
impl OEF<2> for E { const W: G = W7; }
impl FieldExtension<2> for E {
    type BaseField = G;
    fn to_basefield_array(&self) -> [G; 2] { self.0 }
    fn from_basefield_array(a: [G; 2]) -> Self { Self(a) }
    fn from_basefield(x: G) -> Self { Self([x, G::ZERO]) }
}
impl From<G> for E { fn from(x: G) -> Self { Self([x, G::ZERO]) } }
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{} + {}*a", self.0[0], self.0[1]) }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl Neg for E { type Output = Self; fn neg(self) -> Self { Self([-self.0[0], -self.0[1]]) } }
impl Add for E { type Output = Self; #[inline] fn add(self, o: Self) -> Self { Self([self.0[0] + o.0[0], self.0[1] + o.0[1]]) } }
impl Sub for E { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { Self([self.0[0] - o.0[0], self.0[1] - o.0[1]]) } }
impl Mul for E {
    type Output = Self;
    #[inline]
    fn mul(self, o: Self) -> Self {
        let ([a, b], [c, d]) = (self.0, o.0);
        Self([a * c + W7 * b * d, a * d + b * c])
    }
}
impl Div for E { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse() } }
macro_rules! assign { ($($t:ident $f:ident $op:tt),*) => {$(impl $t for E {
    #[inline] fn $f(&mut self, o: Self) { *self = *self $op o; } })*} }
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
impl Sum for E { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl Product for E { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
impl Sample for E {
    fn sample_u64(n: &mut dyn FnMut() -> u64) -> Self { Self([G::sample_u64(n), G::sample_u64(n)]) }
}
impl Field for E {
    const BITS: usize = 128;
    const CHARACTERISTIC_TWO_ADICITY: usize = 32;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self([GoldilocksField(0), GoldilocksField(11_713_931_119_993_638_672)]);
    const NEG_ONE: Self = Self([G::NEG_ONE, G::ZERO]);
    const ONE: Self = Self([G::ONE, G::ZERO]);
    const POWER_OF_TWO_GENERATOR: Self = Self([GoldilocksField(0), GoldilocksField(7_226_896_044_987_257_365)]);
    const TWO: Self = Self([G::TWO, G::ZERO]);
    const TWO_ADICITY: usize = 33;
    const ZERO: Self = Self([G::ZERO, G::ZERO]);

    fn from_noncanonical_u64(n: u64) -> Self { G::from_noncanonical_u64(n).into() }
    fn from_canonical_u64(n: u64) -> Self { G::from_canonical_u64(n).into() }
    fn from_noncanonical_u128(n: u128) -> Self { G::from_noncanonical_u128(n).into() }
    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let [a, b] = self.0;
        let n = (a * a - W7 * b * b).inverse();
        Some(Self([a * n, -(b * n)]))
    }
}
