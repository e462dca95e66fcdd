//! The part of iter_fixed that the recursion circuits use: iterators of a
//! length known in the type, evaluated in order.
pub struct IteratorFixed<I, const N: usize>(I);

pub trait IntoIteratorFixed<const N: usize> {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::Iter, N>;
}
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] {
    type Item = T;
    type Iter = core::array::IntoIter<T, N>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::Iter, N> { IteratorFixed(self.into_iter()) }
}
impl<I: Iterator, const N: usize> IntoIteratorFixed<N> for IteratorFixed<I, N> {
    type Item = I::Item;
    type Iter = I;
    fn into_iter_fixed(self) -> Self { self }
}
impl<I: Iterator, const N: usize> IteratorFixed<I, N> {
    pub fn map<U, G: FnMut(I::Item) -> U>(self, g: G) -> IteratorFixed<core::iter::Map<I, G>, N> { IteratorFixed(self.0.map(g)) }
    pub fn zip<J: IntoIteratorFixed<N>>(self, j: J) -> IteratorFixed<core::iter::Zip<I, J::Iter>, N> {
        IteratorFixed(self.0.zip(j.into_iter_fixed().0))
    }
    pub fn enumerate(self) -> IteratorFixed<core::iter::Enumerate<I>, N> { IteratorFixed(self.0.enumerate()) }
    pub fn collect<C: FromIteratorFixed<I::Item, N>>(self) -> C { C::from_iter_fixed(self) }
}
impl<I: Iterator, const N: usize> IntoIterator for IteratorFixed<I, N> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter(self) -> I { self.0 }
}
pub trait FromIteratorFixed<T, const N: usize> {
    fn from_iter_fixed<I: Iterator<Item = T>>(i: IteratorFixed<I, N>) -> Self;
}
impl<T, const N: usize> FromIteratorFixed<T, N> for [T; N] {
    fn from_iter_fixed<I: Iterator<Item = T>>(mut i: IteratorFixed<I, N>) -> Self {
        core::array::from_fn(|_| i.0.next().expect("length is in the type"))
    }
}
