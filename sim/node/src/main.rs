//! Simulators of the block proposer (C13 to C17).
mod block;
mod kit;
mod matches;
mod roots;
mod state;
mod tx;

fn main() { simkit::main(&[&roots::C12, &tx::C13, &tx::C14, &matches::C15, &state::C16, &block::C17]) }
