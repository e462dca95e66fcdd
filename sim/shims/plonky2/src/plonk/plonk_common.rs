use crate::field::extension::Extendable;
use crate::field::packed::PackedField;
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

pub fn reduce_with_powers<'a, P: PackedField, I: IntoIterator<Item = &'a P>>(terms: I, alpha: P::Scalar) -> P
where
    I::IntoIter: DoubleEndedIterator, {
    terms.into_iter().rev().fold(P::ZEROS, |a, t| a * alpha + *t)
}
pub fn reduce_with_powers_circuit<F: RichField + Extendable<D>, const D: usize>(builder: &mut CircuitBuilder<F, D>, terms: &[Target], alpha: Target) -> Target {
    let zero = builder.zero();
    terms.iter().rev().fold(zero, |a, t| builder.mul_add(a, alpha, *t))
}
pub fn reduce_with_powers_ext_circuit<F: RichField + Extendable<D>, const D: usize>(builder: &mut CircuitBuilder<F, D>, terms: &[ExtensionTarget<D>], alpha: Target) -> ExtensionTarget<D> {
    let zero = builder.zero_extension();
    let alpha = builder.convert_to_ext(alpha);
    terms.iter().rev().fold(zero, |a, t| builder.mul_add_extension(a, alpha, *t))
}
