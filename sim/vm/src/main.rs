//! Simulators of the Mozak virtual machine (C01 to C06).
mod asm;
mod c06;
mod model;
mod props;
mod real;

fn main() { simkit::main(&[&props::C01, &props::C02, &props::C03, &props::C04, &props::C05, &c06::C06]) }
