//! A reader that behaves as badly as a reader may.
use std::io::{Error, ErrorKind, Read, Result};

use serde::{Deserialize, Serialize};
use simkit::{Ctx, Rng};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Quirk {
    /// Return at most this many bytes.
    Short(u16),
    Interrupted,
    /// Fail for good.
    Fail,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Quirks {
    /// What the k-th read call does; later ones return at most `rest` bytes.
    pub list: Vec<Quirk>,
    pub rest: u16,
}
pub fn quirks(r: &mut Rng, fail: bool) -> Quirks {
    let n = r.small(20);
    let mut list: Vec<Quirk> = (0..n).map(|_| if r.chance(40) { Quirk::Interrupted } else { Quirk::Short(1 + r.small(400) as u16) }).collect();
    if fail { let i = r.usize(list.len() + 1); list.insert(i, Quirk::Fail); }
    Quirks { list, rest: if r.chance(30) { 1 + r.small(200) as u16 } else { u16::MAX } }
}
pub struct Reader<'a> {
    data: &'a [u8],
    at: usize,
    k: usize,
    q: &'a Quirks,
    /// Fails instead of reporting the end.
    pub bad_end: bool,
    pub failed: bool,
    pub short: u64,
    pub interrupted: u64,
}
impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], q: &'a Quirks) -> Self { Self { data, at: 0, k: 0, q, bad_end: false, failed: false, short: 0, interrupted: 0 } }
    pub fn report(&self, ctx: &mut Ctx) {
        for _ in 0..self.short.min(50) { ctx.fault("short read"); }
        for _ in 0..self.interrupted { ctx.fault("interrupted read"); }
        if self.failed { ctx.fault("failing read"); }
    }
}
impl Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() { return Ok(0); }
        let q = self.q.list.get(self.k).cloned().unwrap_or(Quirk::Short(self.q.rest.max(1)));
        self.k += 1;
        match q {
            Quirk::Interrupted => { self.interrupted += 1; Err(Error::from(ErrorKind::Interrupted)) }
            Quirk::Fail => { self.failed = true; Err(Error::new(ErrorKind::Other, "disk error")) }
            Quirk::Short(m) => {
                let left = self.data.len() - self.at;
                if left == 0 && self.bad_end { self.failed = true; return Err(Error::new(ErrorKind::Other, "disk error")); }
                let n = b.len().min(left).min(usize::from(m.max(1)));
                if n < b.len().min(left) { self.short += 1; }
                b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            }
        }
    }
}
