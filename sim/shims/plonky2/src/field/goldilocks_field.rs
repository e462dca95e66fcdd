use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use serde::{Deserialize, Serialize};

use super::types::{Field, Field64, PrimeField, PrimeField64, Sample};

const P: u64 = 0xFFFF_FFFF_0000_0001;
const EPSILON: u64 = (1 << 32) - 1;

#[derive(Copy, Clone, Serialize, Deserialize, Default)]
#[repr(transparent)]
pub struct GoldilocksField(pub u64);

#[inline(always)]
const fn canon(x: u64) -> u64 { if x >= P { x - P } else { x } }

#[inline(always)]
fn reduce128(x: u128) -> u64 {
    let lo = x as u64;
    let hi = (x >> 64) as u64;
    let hi_hi = hi >> 32;
    let hi_lo = hi & EPSILON;
    let (mut t0, borrow) = lo.overflowing_sub(hi_hi);
    if borrow { t0 = t0.wrapping_sub(EPSILON); }
    let t1 = hi_lo * EPSILON;
    let (res, carry) = t0.overflowing_add(t1);
    let res = res.wrapping_add(EPSILON * u64::from(carry));
    canon(res)
}

impl PartialEq for GoldilocksField {
    fn eq(&self, o: &Self) -> bool { canon(self.0) == canon(o.0) }
}
impl Eq for GoldilocksField {}
impl Hash for GoldilocksField {
    fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(canon(self.0)) }
}
impl fmt::Display for GoldilocksField {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&canon(self.0), f) }
}
impl fmt::Debug for GoldilocksField {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&canon(self.0), f) }
}
impl From<bool> for GoldilocksField {
    fn from(b: bool) -> Self { Self::from_bool(b) }
}
impl Neg for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self { let v = canon(self.0); Self(if v == 0 { 0 } else { P - v }) }
}
impl Add for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        let s = u128::from(canon(self.0)) + u128::from(canon(o.0));
        Self(if s >= u128::from(P) { (s - u128::from(P)) as u64 } else { s as u64 })
    }
}
impl Sub for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        let (a, b) = (canon(self.0), canon(o.0));
        Self(if a >= b { a - b } else { P - (b - a) })
    }
}
impl Mul for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Self) -> Self { Self(reduce128(u128::from(self.0) * u128::from(o.0))) }
}
impl Div for GoldilocksField {
    type Output = Self;
    fn div(self, o: Self) -> Self { self * o.inverse() }
}
macro_rules! assign { ($($t:ident $f:ident $op:tt),*) => {$(impl $t for GoldilocksField {
    #[inline(always)] fn $f(&mut self, o: Self) { *self = *self $op o; } })*} }
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
impl Sum for GoldilocksField {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) }
}
impl Product for GoldilocksField {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) }
}
impl Sample for GoldilocksField {
    fn sample_u64(next: &mut dyn FnMut() -> u64) -> Self {
        loop {
            let v = next();
            if v < P { return Self(v); }
        }
    }
}
impl Field for GoldilocksField {
    const BITS: usize = 64;
    const CHARACTERISTIC_TWO_ADICITY: usize = 32;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(14_293_326_489_335_486_720);
    const NEG_ONE: Self = Self(P - 1);
    const ONE: Self = Self(1);
    const POWER_OF_TWO_GENERATOR: Self = Self(7_277_203_076_849_721_926);
    const TWO: Self = Self(2);
    const TWO_ADICITY: usize = 32;
    const ZERO: Self = Self(0);

    #[inline(always)]
    fn from_noncanonical_u64(n: u64) -> Self { Self(canon(n)) }
    #[inline(always)]
    fn from_canonical_u64(n: u64) -> Self { debug_assert!(n < P); Self(n) }
    fn from_noncanonical_u128(n: u128) -> Self { Self((n % u128::from(P)) as u64) }
    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() { None } else { Some(self.exp_u64(P - 2)) }
    }
}
impl PrimeField for GoldilocksField {}
impl Field64 for GoldilocksField { const ORDER: u64 = P; }
impl PrimeField64 for GoldilocksField {
    #[inline(always)]
    fn to_canonical_u64(&self) -> u64 { canon(self.0) }
    #[inline(always)]
    fn to_noncanonical_u64(&self) -> u64 { self.0 }
}
