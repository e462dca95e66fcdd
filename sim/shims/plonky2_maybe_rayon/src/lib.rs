//! The sequential flavour.
pub trait MaybeIntoParIter: IntoIterator + Sized {
    fn into_par_iter(self) -> Self::IntoIter { self.into_iter() }
}
impl<T: IntoIterator> MaybeIntoParIter for T {}
pub trait MaybeParIter<T> {
    fn par_iter(&self) -> core::slice::Iter<'_, T>;
    fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T>;
}
impl<T> MaybeParIter<T> for [T] {
    fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() }
    fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T> { self.iter_mut() }
}
impl<T> MaybeParIter<T> for Vec<T> {
    fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() }
    fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T> { self.iter_mut() }
}
pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) { (a(), b()) }
