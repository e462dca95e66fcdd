#[path = "../../vm/src/asm.rs"]
mod asm;
mod complete;
mod forge;
#[path = "../../vm/src/model.rs"]
mod model;
#[path = "../../vm/src/real.rs"]
mod real;
mod solver;
mod sound;
mod spread;
mod story;
mod verdict;
mod walk;

fn main() { simkit::main(&[&complete::C19, &sound::C20]) }
