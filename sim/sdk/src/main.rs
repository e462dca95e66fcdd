//! Simulators of transactions: native recording, storage, replay in the VM (C07 to C11).
mod c07;
mod c08;
mod c09;
mod c11;
mod io;

fn main() { simkit::main(&[&c07::C07, &c08::C08, &c09::C09, &c09::C10, &c11::C11]) }
