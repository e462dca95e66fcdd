pub mod extension;
pub mod goldilocks_field;
pub mod ops;
pub mod packable;
pub mod packed;
pub mod sym;
pub mod polynomial;
pub mod types;
