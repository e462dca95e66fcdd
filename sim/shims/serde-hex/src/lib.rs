//! Stand-in for `serde-hex` 0.1 (strict, prefixed forms).
use core::marker::PhantomData;

use serde::{Deserialize, Deserializer, Serializer};

pub struct StrictPfx;
pub struct Strict;
pub struct CompactPfx;
pub struct Compact;

pub trait HexConf {
    const PFX: bool;
}
impl HexConf for StrictPfx { const PFX: bool = true; }
impl HexConf for Strict { const PFX: bool = false; }

fn enc(b: &[u8], pfx: bool) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 2);
    if pfx { s.push_str("0x"); }
    for x in b { s.push_str(&format!("{x:02x}")); }
    s
}
fn nib(c: u8) -> Result<u8, String> {
    match c {
        b'0'..=b'9' => Ok(c - b'0'),
        b'a'..=b'f' => Ok(c - b'a' + 10),
        b'A'..=b'F' => Ok(c - b'A' + 10),
        _ => Err(format!("expected hexadecimal byte, found {c}")),
    }
}
fn dec(s: &str, pfx: bool) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let b = if pfx {
        if b.len() < 2 || &b[..2] != b"0x" { return Err("expected prefix `0x`".into()); }
        &b[2..]
    } else { b };
    if b.len() % 2 != 0 { return Err(format!("invalid length {}", b.len())); }
    b.chunks(2).map(|c| Ok(nib(c[0])? << 4 | nib(c[1])?)).collect()
}

pub trait SerHex<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf, const N: usize> SerHex<C> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc(self, C::PFX)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let v = dec(&s, C::PFX).map_err(serde::de::Error::custom)?;
        let n = v.len();
        v.try_into().map_err(|_| serde::de::Error::custom(format!("expected {N} bytes, found {n}")))
    }
}
pub trait SerHexSeq<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf> SerHexSeq<C> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&enc(self, C::PFX)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        dec(&s, C::PFX).map_err(serde::de::Error::custom)
    }
}
#[allow(unused)]
struct P<C>(PhantomData<C>);
