pub mod challenger;
pub mod ext_target;
pub mod target;
pub mod witness;
