pub mod oracle;
pub mod proof;
pub mod reduction_strategies {
    #[derive(Debug, Clone, Eq, PartialEq)]
    pub enum FriReductionStrategy {
        Fixed(Vec<usize>),
        ConstantArityBits(usize, usize),
        MinSize(Option<usize>),
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct FriConfig {
    pub rate_bits: usize,
    pub cap_height: usize,
    pub proof_of_work_bits: u32,
    pub reduction_strategy: reduction_strategies::FriReductionStrategy,
    pub num_query_rounds: usize,
}
impl FriConfig {
    pub const fn num_cap_elements(&self) -> usize { 1 << self.cap_height }
    pub fn rate(&self) -> f64 { 1.0 / ((1 << self.rate_bits) as f64) }
}
