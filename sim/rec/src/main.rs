//! The recursive circuits against a prover who may lie.
mod circ;
mod model;
mod run;
mod world;
fn main() { simkit::main(&[&run::C18]) }
