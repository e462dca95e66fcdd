//! Stand-in for the 0xmozak fork of plonky2, for simulation only.
//!
//! The field is real (Goldilocks and its quadratic extension).  The Poseidon2
//! permutation has the real shape but its own round constants.  Proofs are an
//! ideal functionality: see `plonk::circuit_builder`.
#![allow(clippy::all)]

pub mod field;
pub mod fri;
pub mod gates;
pub mod hash;
pub mod iop;
pub mod plonk;
pub mod util;
