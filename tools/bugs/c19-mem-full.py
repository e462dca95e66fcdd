prop='C19'
needs='a run that fills the memory table to exactly a power of two rows'
breaks='no padding row is added to a full memory table though its wrap-around needs one, so the honest run cannot be proved'
edits=[('circuits/src/memory/generation.rs', '        (trace.len() + 1).next_power_of_two().max(MIN_TRACE_LENGTH),', '        trace.len().next_power_of_two().max(MIN_TRACE_LENGTH),')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, System};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse verdict::{faults, Known};\nfn refused(code: Vec<Instruction>, rw: &[(u32, u8)], regs: &[(u8, u32)]) -> usize {\n    let (p, r) = execute(code, &[], rw, regs, RawTapes::default());\n    let s = System::default();\n    let f = faults(&s, &traces(&p, &r), &Known::new(&p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.len()\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\nfn main() {\n    for n in 0..40 {\n        let code = (0..n).map(|i| op(Op::SB, 0, 5, 6, i % 3)).collect();\n        assert_eq!(refused(code, &[], &[(5, 7), (6, 0x1000)]), 0, "{n} stores");\n    }\n}\n'
