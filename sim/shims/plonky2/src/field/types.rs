use core::fmt::{Debug, Display};
use core::hash::Hash;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::cell::Cell;

use serde::de::DeserializeOwned;
use serde::Serialize;

/// Deterministic replacement for the thread RNG (`Sample::rand`): the sim owns it.
thread_local!(static RNG: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) });

pub fn sim_seed_rng(seed: u64) { RNG.with(|r| r.set(seed | 1)); }

pub fn sim_next_u64() -> u64 {
    RNG.with(|r| {
        let s = r.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        r.set(s);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    })
}

pub trait Sample: Sized {
    fn sample_u64(next: &mut dyn FnMut() -> u64) -> Self;
    fn rand() -> Self { Self::sample_u64(&mut sim_next_u64) }
    fn rand_vec(n: usize) -> Vec<Self> { (0..n).map(|_| Self::rand()).collect() }
    fn rand_array<const N: usize>() -> [Self; N] { core::array::from_fn(|_| Self::rand()) }
}

pub trait Field:
    'static
    + Copy
    + Eq
    + Hash
    + Neg<Output = Self>
    + Add<Self, Output = Self>
    + AddAssign<Self>
    + Sum
    + Sub<Self, Output = Self>
    + SubAssign<Self>
    + Mul<Self, Output = Self>
    + MulAssign<Self>
    + Div<Self, Output = Self>
    + DivAssign<Self>
    + Product
    + Debug
    + Default
    + Display
    + Sample
    + Send
    + Sync
    + Serialize
    + DeserializeOwned
{
    const ZERO: Self;
    const ONE: Self;
    const TWO: Self;
    const NEG_ONE: Self;
    const TWO_ADICITY: usize;
    const CHARACTERISTIC_TWO_ADICITY: usize;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self;
    const POWER_OF_TWO_GENERATOR: Self;
    const BITS: usize;

    fn add_one(&self) -> Self { *self + Self::ONE }
    fn sub_one(&self) -> Self { *self - Self::ONE }
    fn from_noncanonical_u64(n: u64) -> Self;
    fn from_canonical_u64(n: u64) -> Self;
    fn from_noncanonical_u128(n: u128) -> Self;
    fn from_noncanonical_i64(n: i64) -> Self {
        if n >= 0 { Self::from_noncanonical_u64(n as u64) } else { -Self::from_noncanonical_u64(n.unsigned_abs()) }
    }
    fn try_inverse(&self) -> Option<Self>;

    fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_i64(n: i64) -> Self { Self::from_noncanonical_i64(n) }
    fn from_bool(b: bool) -> Self { if b { Self::ONE } else { Self::ZERO } }
    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn is_nonzero(&self) -> bool { *self != Self::ZERO }
    fn is_one(&self) -> bool { *self == Self::ONE }
    fn is_not_one(&self) -> bool { *self != Self::ONE }
    fn square(&self) -> Self { *self * *self }
    fn cube(&self) -> Self { *self * *self * *self }
    fn triple(&self) -> Self { *self + *self + *self }
    fn double(&self) -> Self { *self + *self }
    fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
    fn exp_u64(&self, mut power: u64) -> Self {
        let mut cur = *self;
        let mut acc = Self::ONE;
        while power > 0 {
            if power & 1 == 1 { acc *= cur; }
            cur = cur.square();
            power >>= 1;
        }
        acc
    }
    fn exp_power_of_2(&self, n: usize) -> Self { (0..n).fold(*self, |a, _| a.square()) }
    fn multiply_accumulate(&self, x: Self, y: Self) -> Self { *self + x * y }
    fn batch_multiplicative_inverse(x: &[Self]) -> Vec<Self> {
        let mut acc = Self::ONE;
        let mut out: Vec<Self> = x.iter().map(|v| { let a = acc; acc *= *v; a }).collect();
        let mut inv = acc.inverse();
        for (o, v) in out.iter_mut().zip(x).rev() { *o *= inv; inv *= *v; }
        out
    }
    fn primitive_root_of_unity(n_log: usize) -> Self {
        assert!(n_log <= Self::TWO_ADICITY);
        Self::POWER_OF_TWO_GENERATOR.exp_power_of_2(Self::TWO_ADICITY - n_log)
    }
    fn two_adic_subgroup(n_log: usize) -> Vec<Self> {
        let g = Self::primitive_root_of_unity(n_log);
        g.powers().take(1 << n_log).collect()
    }
    fn powers(&self) -> Powers<Self> { Powers { base: *self, current: Self::ONE } }
    fn coset_shift() -> Self { Self::MULTIPLICATIVE_GROUP_GENERATOR }
    fn inverse_2exp(exp: usize) -> Self { Self::TWO.exp_u64(exp as u64).inverse() }
}

#[derive(Clone, Debug)]
pub struct Powers<F: Field> {
    base: F,
    current: F,
}
impl<F: Field> Iterator for Powers<F> {
    type Item = F;

    fn next(&mut self) -> Option<F> {
        let r = self.current;
        self.current *= self.base;
        Some(r)
    }
}

pub trait PrimeField: Field {}

pub trait Field64: Field {
    const ORDER: u64;
}

pub trait PrimeField64: PrimeField + Field64 {
    fn to_canonical_u64(&self) -> u64;
    fn to_noncanonical_u64(&self) -> u64;
    fn to_canonical(&self) -> Self { Self::from_canonical_u64(self.to_canonical_u64()) }
    fn to_canonical_i64(&self) -> i64 {
        let v = self.to_canonical_u64();
        if v <= Self::ORDER / 2 { v as i64 } else { -((Self::ORDER - v) as i64) }
    }
}
