#[derive(Clone, Debug)]
pub struct StarkConfig {
    pub security_bits: usize,
    pub num_challenges: usize,
}
impl StarkConfig {
    pub fn new(security_bits: usize, num_challenges: usize) -> Self { Self { security_bits, num_challenges } }
    pub fn standard_fast_config() -> Self { Self::new(100, 2) }
}
impl Default for StarkConfig { fn default() -> Self { Self::standard_fast_config() } }
