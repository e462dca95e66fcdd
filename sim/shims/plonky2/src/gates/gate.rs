use core::fmt::Debug;
use core::marker::PhantomData;

pub trait Gate<F, const D: usize> {
    fn id(&self) -> String;
}

#[derive(Clone)]
pub struct GateRef<F, const D: usize>(pub String, pub PhantomData<F>);
impl<F, const D: usize> GateRef<F, D> {
    pub fn new<G: Gate<F, D>>(g: G) -> Self { Self(g.id(), PhantomData) }
}
impl<F, const D: usize> PartialEq for GateRef<F, D> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<F, const D: usize> Eq for GateRef<F, D> {}
impl<F, const D: usize> Debug for GateRef<F, D> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(&self.0) }
}
