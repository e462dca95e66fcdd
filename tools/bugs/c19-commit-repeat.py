prop='C19'
needs='a program that reads the same commitment tape more than once'
breaks='the multiplicity of the commitment table counts each tape once however often it was read, so the honest run cannot be proved'
edits=[('circuits/src/tape_commitments/generation.rs', '    let num_tape_commitment_ecalls = F::from_canonical_u32(\n        num_ecalls(&execution.executed, which_tape_commitment)\n            .try_into()\n            .unwrap(),\n    );', '    let num_tape_commitment_ecalls =\n        F::from_bool(num_ecalls(&execution.executed, which_tape_commitment) > 0);')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, System};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse verdict::{faults, Known};\nfn refused(code: Vec<Instruction>, rw: &[(u32, u8)], regs: &[(u8, u32)]) -> usize {\n    let (p, r) = execute(code, &[], rw, regs, RawTapes::default());\n    let s = System::default();\n    let f = faults(&s, &traces(&p, &r), &Known::new(&p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.len()\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\nfn main() {\n    let read = |n: u32| (0..n).flat_map(|i| [op(Op::ADD, 10, 0, 0, 7), op(Op::ADD, 11, 0, 0, 0x1000 + i * 64), op(Op::ADD, 12, 0, 0, 32), ECALL]).collect::<Vec<_>>();\n    assert_eq!(refused(read(0), &[], &[]), 0);\n    assert_eq!(refused(read(1), &[], &[]), 0);\n    assert_eq!(refused(read(2), &[], &[]), 0);\n}\n'
