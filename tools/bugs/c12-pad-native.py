prop='C12'
needs='an input whose length is a multiple of eight'
breaks='native hashing leaves out the padding where the guest adds it, so that an event over such data has another digest in the VM'
edits=[('sdk/src/native/poseidon.rs', '    let mut padded_input = input.to_vec();\n    padded_input.push(1);\n', '    let mut padded_input = input.to_vec();\n    if input.is_empty() || input.len() % RATE != 0 {\n        padded_input.push(1);\n    }\n')]
deps=['sdk']
demo='''use mozak_sdk::native::poseidon::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};
fn main() {
    let data = [7u8; 16];
    let mut padded = data.to_vec();
    padded.push(1);
    padded.resize(24, 0);
    assert_eq!(poseidon2_hash_with_pad(&data), poseidon2_hash_no_pad(&padded), "not what the guest hashes");
}
'''
