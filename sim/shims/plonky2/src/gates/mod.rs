pub mod gate;
pub mod noop;
