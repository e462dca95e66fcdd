//! Arrays of any length as sequences.
use serde::de::{Deserialize, Deserializer, Error};
use serde::ser::{Serialize, SerializeTuple, Serializer};

pub trait BigArray<'de>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> where Self: SerArr { self.ser(s) }
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
pub trait SerArr { fn ser<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>; }
impl<T: Serialize, const N: usize> SerArr for [T; N] {
    fn ser<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(N)?;
        for x in self { t.serialize_element(x)?; }
        t.end()
    }
}
impl<'de, T: Deserialize<'de>, const N: usize> BigArray<'de> for [T; N] {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v: Vec<T> = Vec::deserialize(d)?;
        v.try_into().map_err(|_| D::Error::custom("wrong length"))
    }
}
