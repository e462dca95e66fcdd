pub trait Square {
    fn square(&self) -> Self;
}
impl<F: super::types::Field> Square for F {
    fn square(&self) -> Self { *self * *self }
}
