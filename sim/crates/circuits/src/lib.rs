#![feature(const_trait_impl)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
pub mod sim;
extern crate serde;
extern crate serde_big_array;
extern crate serde_derive;
extern crate serde_json;
