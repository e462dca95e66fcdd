prop='C10'
needs='a reader that fails after it has delivered a complete record'
breaks='a failing disk is not reported'
edits=[('cli/src/runner.rs', '    let bytes_read = bin.read_to_end(&mut sys_tapes_bytes)?;\n    debug!("Read {bytes_read} of system tape data.");\n    let deserialized: SystemTape = serde_json::from_slice(&sys_tapes_bytes)?;', '    let read = bin.read_to_end(&mut sys_tapes_bytes);\n    debug!("Read {read:?} of system tape data.");\n    // An incomplete tape does not parse\n    let deserialized: SystemTape = serde_json::from_slice(&sys_tapes_bytes)?;')]
deps=['sdk', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''struct R { data: &'static [u8], at: usize, max: usize, fail: bool }
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max).min(self.data.len() - self.at);
        if n == 0 && self.fail && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk error")); }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn tape() -> &'static [u8] { Box::leak(serde_json::to_vec(&SystemTape::default()).unwrap().into_boxed_slice()) }
use mozak_cli::runner::deserialize_system_tape;
use mozak_sdk::common::types::SystemTape;
fn main() {
    let data = tape();
    deserialize_system_tape(R { data, at: 0, max: 1000, fail: false }).unwrap();
    assert!(deserialize_system_tape(R { data, at: 0, max: 10, fail: true }).is_err());
}
'''
