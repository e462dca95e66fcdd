//! The guest program, run in the real VM.
use std::sync::OnceLock;

use mozak_runner::elf::Program;
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use rkyv::rancor::Failure;
use simkit::guarded;

use crate::script::Script;

struct Image {
    program: Program,
    script: u32,
    output: u32,
}
fn image() -> &'static Image {
    static IMAGE: OnceLock<Image> = OnceLock::new();
    IMAGE.get_or_init(|| simkit::isolated(1, || {
        let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../../../guest/target/guest.elf");
        let bytes = std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let program = Program::mozak_load_program(&bytes).expect("guest image");
        let find = |mark: &[u8; 16]| {
            let mut at: Vec<u32> = program.rw_memory.iter().filter(|(_, b)| **b == mark[0]).map(|(a, _)| *a).collect();
            at.retain(|a| (0..16).all(|i| program.rw_memory.get(&(a + i)) == Some(&mark[i as usize])));
            assert_eq!(at.len(), 1, "mark in the guest image");
            at[0]
        };
        Image { script: find(b"<script is here>"), output: find(b"<output is here>"), program }
    }))
}

/// How a guest run ended.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    /// Halted after the clean-shutdown checks.
    Clean,
    Refused(String),
    /// Did not end within the step budget.
    Endless,
}
pub struct Ran {
    pub end: End,
    pub log: Vec<u8>,
    pub steps: u64,
}

/// `cuts`: at these steps the machine is dropped and resumed from its copy.
pub fn run(script: &Script, tapes: RawTapes, cuts: &[u64], budget: u64) -> Ran {
    let im = image();
    let mut p = im.program.clone();
    let b = rkyv::to_bytes::<_, 256, Failure>(script).expect("script");
    assert!(b.len() <= 12288, "script too long");
    for (i, x) in (b.len() as u32).to_le_bytes().iter().chain(b.iter()).enumerate() {
        p.rw_memory.0.insert(im.script + 16 + i as u32, *x);
    }
    let mut s = State::<F>::new(p.clone(), tapes);
    let mut saved: Option<(u64, State<F>)> = None;
    let mut cuts = cuts.to_vec();
    cuts.sort_unstable();
    let mut steps = 0;
    let end = loop {
        if s.has_halted() { break End::Clean; }
        if steps >= budget { break End::Endless; }
        if let Some(c) = cuts.first().copied() {
            if steps == c / 2 && saved.as_ref().map_or(true, |x| x.0 != c) { saved = Some((c, s.clone())); }
            if steps == c {
                cuts.remove(0);
                if let Some((_, old)) = saved.take() { s = old; steps = c / 2; }
                continue;
            }
        }
        match guarded(|| s.clone().execute_instruction(&p)) {
            Ok(Ok((_, _, n))) => s = n,
            Ok(Err(e)) => break End::Refused(e.to_string()),
            Err(e) => break End::Refused(e),
        }
        steps += 1;
    };
    let ptr = s.load_u32(im.output + 16);
    let len = s.load_u32(im.output + 20).min(1 << 20);
    let log = (0..len).map(|i| s.load_u8(ptr.wrapping_add(i))).collect();
    Ran { end, log, steps }
}
