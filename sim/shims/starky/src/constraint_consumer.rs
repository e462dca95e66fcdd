use plonky2::field::extension::Extendable;
use plonky2::field::packed::PackedField;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;

/// Keeps every constraint's value; a constraint holds if it is zero where it counts.
pub struct ConstraintConsumer<P: PackedField> {
    z_last: P,
    lagrange_first: P,
    lagrange_last: P,
    /// What counts, as in starky: a transition counts on all rows but the last.
    pub sim_values: Vec<P>,
}

impl<P: PackedField> ConstraintConsumer<P> {
    pub fn new(_alphas: Vec<P::Scalar>, z_last: P, lagrange_first: P, lagrange_last: P) -> Self {
        Self { z_last, lagrange_first, lagrange_last, sim_values: Vec::new() }
    }
    pub fn new_debug_api(is_first_row: bool, is_last_row: bool) -> Self {
        let on = |b: bool| if b { P::ONES } else { P::ZEROS };
        Self::new(vec![], on(!is_last_row), on(is_first_row), on(is_last_row))
    }
    pub fn debug_api_has_constraint_failed(&self) -> bool { self.sim_values.iter().any(|v| v.as_slice().iter().any(|x| *x != P::ZEROS.as_slice()[0])) }
    pub fn accumulators(self) -> Vec<P::Scalar> { unimplemented!("the simulator keeps single constraints") }
    pub fn constraint_transition(&mut self, c: P) { self.constraint(c * self.z_last); }
    pub fn constraint(&mut self, c: P) { self.sim_values.push(c); }
    pub fn constraint_first_row(&mut self, c: P) { self.constraint(c * self.lagrange_first); }
    pub fn constraint_last_row(&mut self, c: P) { self.constraint(c * self.lagrange_last); }
}

pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
    z_last: ExtensionTarget<D>,
    lagrange_first: ExtensionTarget<D>,
    lagrange_last: ExtensionTarget<D>,
    pub sim_values: Vec<ExtensionTarget<D>>,
    _f: core::marker::PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
    pub fn new(_zero: ExtensionTarget<D>, _alphas: Vec<plonky2::iop::target::Target>, z_last: ExtensionTarget<D>, lagrange_first: ExtensionTarget<D>, lagrange_last: ExtensionTarget<D>) -> Self {
        Self { z_last, lagrange_first, lagrange_last, sim_values: Vec::new(), _f: core::marker::PhantomData }
    }
    pub fn accumulators(self) -> Vec<ExtensionTarget<D>> { unimplemented!("the simulator keeps single constraints") }
    pub fn constraint_transition(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        let f = b.mul_extension(c, self.z_last);
        self.constraint(b, f);
    }
    pub fn constraint(&mut self, _b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.sim_values.push(c); }
    pub fn constraint_first_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        let f = b.mul_extension(c, self.lagrange_first);
        self.constraint(b, f);
    }
    pub fn constraint_last_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        let f = b.mul_extension(c, self.lagrange_last);
        self.constraint(b, f);
    }
}
