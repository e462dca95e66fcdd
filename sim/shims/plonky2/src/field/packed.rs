use core::fmt::Debug;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

use super::types::Field;

pub unsafe trait PackedField:
    'static
    + Add<Self, Output = Self>
    + Add<Self::Scalar, Output = Self>
    + AddAssign<Self>
    + AddAssign<Self::Scalar>
    + Copy
    + Debug
    + Default
    + From<Self::Scalar>
    + Mul<Self, Output = Self>
    + Mul<Self::Scalar, Output = Self>
    + MulAssign<Self>
    + MulAssign<Self::Scalar>
    + Neg<Output = Self>
    + Product
    + Send
    + Sub<Self, Output = Self>
    + Sub<Self::Scalar, Output = Self>
    + SubAssign<Self>
    + SubAssign<Self::Scalar>
    + Sum
    + Sync
where
    Self::Scalar: Add<Self, Output = Self> + Mul<Self, Output = Self> + Sub<Self, Output = Self>,
{
    type Scalar: Field;
    const WIDTH: usize;
    const ZEROS: Self;
    const ONES: Self;
    fn from_slice(s: &[Self::Scalar]) -> &Self;
    fn as_slice(&self) -> &[Self::Scalar];
    fn square(&self) -> Self { *self * *self }
    fn doubles(&self) -> Self { *self + *self }
}

unsafe impl<F: Field> PackedField for F {
    type Scalar = F;
    const WIDTH: usize = 1;
    const ZEROS: F = F::ZERO;
    const ONES: F = F::ONE;
    fn from_slice(s: &[F]) -> &F { &s[0] }
    fn as_slice(&self) -> &[F] { core::slice::from_ref(self) }
}
#[allow(unused)]
fn _u<F: Field>(a: F, b: F) -> F where F: Div<F, Output = F> { a / b }
