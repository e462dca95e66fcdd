pub mod reducing;
pub mod timing;

pub fn log2_ceil(n: usize) -> usize { (usize::BITS - n.saturating_sub(1).leading_zeros()) as usize }
pub fn log2_strict(n: usize) -> usize {
    assert!(n.is_power_of_two(), "Not a power of two: {n}");
    n.trailing_zeros() as usize
}
pub const fn bits_u64(n: u64) -> usize { (64 - n.leading_zeros()) as usize }
pub const fn ceil_div_usize(a: usize, b: usize) -> usize { (a + b - 1) / b }
pub fn transpose<F: Clone>(m: &[Vec<F>]) -> Vec<Vec<F>> {
    let len = m[0].len();
    (0..len).map(|i| m.iter().map(|r| r[i].clone()).collect()).collect()
}
