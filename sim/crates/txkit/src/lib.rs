//! Transactions for the simulators: scripted programs run natively on the SDK, and the same
//! programs run as a guest of the VM on tapes derived from the recorded system tape.
#[path = "../../../../guest/src/script.rs"]
pub mod script;
pub mod guest;
pub mod native;
pub mod reference;
pub mod gen;

use serde::{Deserialize, Serialize};
pub type Id = [u8; 32];

pub fn pid(id: &Id) -> mozak_sdk::common::types::ProgramIdentifier { mozak_sdk::common::types::ProgramIdentifier((*id).into()) }

/// A program of a simulated transaction.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    #[serde(with = "hexid")]
    pub id: Id,
    pub script: script::Script,
}
/// A call made by nobody in particular: how every transaction starts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Root {
    #[serde(with = "hexid")]
    pub to: Id,
    pub method: u8,
    pub shape: script::Shape,
    pub salt: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tx {
    pub programs: Vec<Prog>,
    pub roots: Vec<Root>,
}
impl Tx {
    pub fn script(&self, id: &Id) -> Option<&script::Script> { self.programs.iter().find(|p| p.id == *id).map(|p| &p.script) }
}

/// Identifiers as one string in replay files, so that minimisation leaves them alone.
pub mod hexid {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8; 32], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<[u8; 32], D::Error> {
        let s = String::deserialize(d)?;
        let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
        b.try_into().map_err(|_| serde::de::Error::custom("identifier length"))
    }
}
