use super::gate::Gate;
pub struct NoopGate;
impl<F, const D: usize> Gate<F, D> for NoopGate {
    fn id(&self) -> String { "NoopGate".into() }
}
