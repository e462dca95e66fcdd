use super::target::Target;
use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::plonk::circuit_builder::CircuitBuilder;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ExtensionTarget<const D: usize>(pub [Target; D]);
impl<const D: usize> Default for ExtensionTarget<D> {
    fn default() -> Self { Self([Target::default(); D]) }
}
impl<const D: usize> ExtensionTarget<D> {
    pub const fn to_target_array(&self) -> [Target; D] { self.0 }
}
impl<const D: usize> TryFrom<Vec<Target>> for ExtensionTarget<D> {
    type Error = Vec<Target>;
    fn try_from(v: Vec<Target>) -> Result<Self, Self::Error> { Ok(Self(v.try_into()?)) }
}

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> {
        let z = self.zero();
        let mut a = [z; D];
        a[0] = t;
        ExtensionTarget(a)
    }
    pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> {
        use crate::field::extension::FieldExtension;
        let a: [F; D] = c.to_basefield_array();
        ExtensionTarget(a.map(|x| self.constant(x)))
    }
    pub fn zero_extension(&mut self) -> ExtensionTarget<D> { let z = self.zero(); ExtensionTarget([z; D]) }
    pub fn one_extension(&mut self) -> ExtensionTarget<D> { let o = self.one(); self.convert_to_ext(o) }
    pub fn two_extension(&mut self) -> ExtensionTarget<D> { let o = self.two(); self.convert_to_ext(o) }
    pub fn add_virtual_extension_target(&mut self) -> ExtensionTarget<D> {
        ExtensionTarget(core::array::from_fn(|_| self.add_virtual_target()))
    }
    pub fn add_virtual_extension_targets(&mut self, n: usize) -> Vec<ExtensionTarget<D>> {
        (0..n).map(|_| self.add_virtual_extension_target()).collect()
    }
    pub fn connect_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) {
        for (x, y) in a.0.into_iter().zip(b.0) { self.connect(x, y); }
    }
    pub fn add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> {
        ExtensionTarget(core::array::from_fn(|i| self.add(a.0[i], b.0[i])))
    }
    pub fn sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> {
        ExtensionTarget(core::array::from_fn(|i| self.sub(a.0[i], b.0[i])))
    }
    pub fn mul_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let w = <F as Extendable<D>>::W;
        let mut out = [None; D];
        for i in 0..D {
            for j in 0..D {
                let c = if i + j >= D { w } else { F::ONE };
                let k = (i + j) % D;
                let addend = match out[k] { Some(t) => t, None => self.zero() };
                out[k] = Some(self.arithmetic(c, F::ONE, a.0[i], b.0[j], addend));
            }
        }
        ExtensionTarget(out.map(|t| t.unwrap()))
    }
    pub fn mul_add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let m = self.mul_extension(a, b);
        self.add_extension(m, c)
    }
    pub fn mul_sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let m = self.mul_extension(a, b);
        self.sub_extension(m, c)
    }
    pub fn scalar_mul_ext(&mut self, s: Target, a: ExtensionTarget<D>) -> ExtensionTarget<D> {
        ExtensionTarget(a.0.map(|x| self.mul(s, x)))
    }
    pub fn mul_const_extension(&mut self, c: F, a: ExtensionTarget<D>) -> ExtensionTarget<D> {
        ExtensionTarget(a.0.map(|x| self.mul_const(c, x)))
    }
    /// constant * (sum of products) + start
    pub fn inner_product_extension(&mut self, constant: F, start: ExtensionTarget<D>, pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>) -> ExtensionTarget<D> {
        pairs.into_iter().fold(start, |acc, (a, b)| {
            let m = self.mul_extension(a, b);
            let m = self.mul_const_extension(constant, m);
            self.add_extension(acc, m)
        })
    }
    pub fn square_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { self.mul_extension(a, a) }
    pub fn add_many_extension(&mut self, ts: impl IntoIterator<Item = impl core::borrow::Borrow<ExtensionTarget<D>>>) -> ExtensionTarget<D> {
        let z = self.zero_extension();
        ts.into_iter().fold(z, |a, t| self.add_extension(a, *t.borrow()))
    }
}
