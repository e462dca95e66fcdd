//! The part of enumflags2 that the recursion circuits use.
use core::marker::PhantomData;
use core::ops::{BitAnd, BitOr, BitOrAssign, Not};

pub use enumflags2_derive::bitflags;

pub trait Flag: Copy {
    const ALL_BITS: u8;
    fn bit(self) -> u8;
}

pub struct BitFlags<T>(u8, PhantomData<T>);
#[derive(Debug, Clone, Copy)]
pub struct FromBitsError(pub u8);

impl<T> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for BitFlags<T> {}
impl<T> Default for BitFlags<T> { fn default() -> Self { Self(0, PhantomData) } }
impl<T> core::fmt::Debug for BitFlags<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "BitFlags({:#b})", self.0) }
}
impl<T: Flag> BitFlags<T> {
    pub const ALL: Self = Self(T::ALL_BITS, PhantomData);
    pub const EMPTY: Self = Self(0, PhantomData);
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn bits(self) -> u8 { self.0 }
    pub fn from_bits(b: u8) -> Result<Self, FromBitsError> {
        if b & !T::ALL_BITS == 0 { Ok(Self(b, PhantomData)) } else { Err(FromBitsError(b)) }
    }
    pub fn from_bits_truncate(b: u8) -> Self { Self(b & T::ALL_BITS, PhantomData) }
    pub fn len(self) -> usize { self.0.count_ones() as usize }
    pub fn is_empty(self) -> bool { self.0 == 0 }
    pub fn contains(self, o: impl Into<Self>) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn intersects(self, o: impl Into<Self>) -> bool { self.0 & o.into().0 != 0 }
    pub fn insert(&mut self, o: impl Into<Self>) { self.0 |= o.into().0 }
    pub fn remove(&mut self, o: impl Into<Self>) { self.0 &= !o.into().0 }
}
impl<T: Flag> From<T> for BitFlags<T> { fn from(t: T) -> Self { Self(t.bit(), PhantomData) } }
impl<T: Flag, B: Into<BitFlags<T>>> BitOr<B> for BitFlags<T> {
    type Output = Self;
    fn bitor(self, r: B) -> Self { Self(self.0 | r.into().0, PhantomData) }
}
impl<T: Flag, B: Into<BitFlags<T>>> BitOrAssign<B> for BitFlags<T> { fn bitor_assign(&mut self, r: B) { self.0 |= r.into().0 } }
impl<T: Flag, B: Into<BitFlags<T>>> BitAnd<B> for BitFlags<T> {
    type Output = Self;
    fn bitand(self, r: B) -> Self { Self(self.0 & r.into().0, PhantomData) }
}
impl<T: Flag> Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self(!self.0 & T::ALL_BITS, PhantomData) } }
