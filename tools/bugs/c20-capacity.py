prop='C20'
needs='a hash of more than two blocks'
breaks='a prover can choose the capacity of the sponge anew from the third block on, so hashes collide at will'
edits=[('circuits/src/poseidon2_sponge/stark.rs', '            (1 - nv.ops.is_init_permute)\n                * nv.ops.is_permute', '            (1 - lv.ops.is_permute)\n                * nv.ops.is_permute')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, Row, System, Tables, F};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::elf::Program;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse mozak_runner::vm::ExecutionRecord;\nuse plonky2::field::types::{Field, PrimeField64};\nuse verdict::{faults, Known};\nfn accepted(p: &Program, t: &Tables) -> bool {\n    let s = System::default();\n    let f = faults(&s, t, &Known::new(p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.is_empty()\n}\nfn honest(p: &Program, r: &ExecutionRecord<F>) -> Tables {\n    let t = traces(p, r);\n    assert!(accepted(p, &t), "an honest run is refused");\n    t\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\n/// The record, but with this in the register from after step k on.\nfn hold(r: &mut ExecutionRecord<F>, k: usize, reg: usize, v: u32) {\n    for x in r.executed.iter_mut().skip(k + 1) { x.state.registers[reg] = v; }\n    r.last_state.registers[reg] = v;\n}\nfn main() {\n    let code = vec![op(Op::ADD, 10, 0, 0, mozak_sdk::core::ecall::POSEIDON2), op(Op::ADD, 11, 0, 0, 0x1000), op(Op::ADD, 12, 0, 0, 24), op(Op::ADD, 13, 0, 0, 0x2000), ECALL];\n    let (p, mut r) = execute(code, &[], &(0..24).map(|i| (0x1000 + i, i as u8)).collect::<Vec<_>>(), &[], RawTapes::default());\n    honest(&p, &r);\n    let k = r.executed.iter().position(|x| x.aux.poseidon2.is_some()).unwrap();\n    let e = r.executed[k].aux.poseidon2.as_mut().unwrap();\n    assert_eq!(e.sponge_data.len(), 3);\n    let d = e.sponge_data.last_mut().unwrap();\n    d.preimage[9] += F::ONE;\n    use plonky2::hash::hashing::PlonkyPermutation;\n    use plonky2::hash::poseidon2::Poseidon2Permutation;\n    let mut q = Poseidon2Permutation::<F>::new(d.preimage);\n    q.permute();\n    d.output.copy_from_slice(q.as_ref());\n    assert!(!accepted(&p, &traces(&p, &r)), "a hash with a capacity of the prover\'s choice is accepted");\n}\n'
