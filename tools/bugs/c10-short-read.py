prop='C10'
needs='a reader that returns fewer bytes than asked for before the end'
breaks='an intact record is refused when it arrives in pieces'
edits=[('cli/src/runner.rs', '    let bytes_read = bin.read_to_end(&mut sys_tapes_bytes)?;\n    debug!("Read {bytes_read} of system tape data.");', '    let mut chunk = vec![0; 1 << 16];\n    loop {\n        match bin.read(&mut chunk) {\n            Ok(n) => {\n                sys_tapes_bytes.extend_from_slice(&chunk[..n]);\n                if n < chunk.len() {\n                    break;\n                }\n            }\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n            Err(e) => return Err(e.into()),\n        }\n    }\n    debug!("Read {} of system tape data.", sys_tapes_bytes.len());')]
deps=['sdk', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''struct R { data: &'static [u8], at: usize, max: usize, fail: bool }
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max).min(self.data.len() - self.at);
        if n == 0 && self.fail && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk error")); }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn tape() -> &'static [u8] { Box::leak(serde_json::to_vec(&SystemTape::default()).unwrap().into_boxed_slice()) }
use mozak_cli::runner::deserialize_system_tape;
use mozak_sdk::common::types::SystemTape;
fn main() {
    let data = tape();
    deserialize_system_tape(R { data, at: 0, max: 1000, fail: false }).unwrap();
    deserialize_system_tape(R { data, at: 0, max: 10, fail: false }).unwrap();
}
'''
