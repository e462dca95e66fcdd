//! Starky's table interface. A proof system is not here: constraints are
//! evaluated row by row.
pub mod config;
pub mod constraint_consumer;
pub mod evaluation_frame;
pub mod stark;
pub mod lookup { pub struct Lookup; }
