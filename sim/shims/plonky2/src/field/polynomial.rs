use super::types::Field;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PolynomialValues<F: Field> {
    pub values: Vec<F>,
}
impl<F: Field> PolynomialValues<F> {
    pub fn new(values: Vec<F>) -> Self {
        debug_assert!(values.len().is_power_of_two());
        Self { values }
    }
    pub fn constant(v: F, len: usize) -> Self { Self::new(vec![v; len]) }
    pub fn zero(len: usize) -> Self { Self::constant(F::ZERO, len) }
    pub fn is_zero(&self) -> bool { self.values.iter().all(|x| x.is_zero()) }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn is_empty(&self) -> bool { self.values.is_empty() }
}
impl<F: Field> From<Vec<F>> for PolynomialValues<F> {
    fn from(v: Vec<F>) -> Self { Self::new(v) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PolynomialCoeffs<F: Field> {
    pub coeffs: Vec<F>,
}
impl<F: Field> PolynomialCoeffs<F> {
    pub fn new(coeffs: Vec<F>) -> Self { Self { coeffs } }
    pub fn len(&self) -> usize { self.coeffs.len() }
    pub fn is_empty(&self) -> bool { self.coeffs.is_empty() }
}
