pub trait StarkEvaluationFrame<T: Copy + Clone + Default, U: Copy + Clone + Default>: Sized {
    const COLUMNS: usize;
    const PUBLIC_INPUTS: usize;
    fn get_local_values(&self) -> &[T];
    fn get_next_values(&self) -> &[T];
    fn get_public_inputs(&self) -> &[U];
    fn from_values(lv: &[T], nv: &[T], pis: &[U]) -> Self;
}

#[derive(Debug)]
pub struct StarkFrame<T: Copy + Clone + Default, U: Copy + Clone + Default, const N: usize, const N2: usize> {
    local_values: [T; N],
    next_values: [T; N],
    public_inputs: [U; N2],
}
impl<T: Copy + Clone + Default, U: Copy + Clone + Default, const N: usize, const N2: usize> StarkEvaluationFrame<T, U> for StarkFrame<T, U, N, N2> {
    const COLUMNS: usize = N;
    const PUBLIC_INPUTS: usize = N2;
    fn get_local_values(&self) -> &[T] { &self.local_values }
    fn get_next_values(&self) -> &[T] { &self.next_values }
    fn get_public_inputs(&self) -> &[U] { &self.public_inputs }
    fn from_values(lv: &[T], nv: &[T], pis: &[U]) -> Self {
        assert_eq!((lv.len(), nv.len(), pis.len()), (N, N, N2));
        Self { local_values: core::array::from_fn(|i| lv[i]), next_values: core::array::from_fn(|i| nv[i]), public_inputs: core::array::from_fn(|i| pis[i]) }
    }
}
