prop='C20'
needs='a BGE or BGEU on two equal operands'
breaks='where the operands of a BGE are equal, nothing says what comes next, so a prover can go on without the branch'
edits=[('circuits/src/cpu/branches.rs', '    cb.always(is_bge * (1 - lt) * (next_pc - branched_pc));', '    cb.always(is_bge * (lv.normalised_diff - lt) * (next_pc - branched_pc));')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, Row, System, Tables, F};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::elf::Program;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse mozak_runner::vm::ExecutionRecord;\nuse plonky2::field::types::{Field, PrimeField64};\nuse verdict::{faults, Known};\nfn accepted(p: &Program, t: &Tables) -> bool {\n    let s = System::default();\n    let f = faults(&s, t, &Known::new(p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.is_empty()\n}\nfn honest(p: &Program, r: &ExecutionRecord<F>) -> Tables {\n    let t = traces(p, r);\n    assert!(accepted(p, &t), "an honest run is refused");\n    t\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\n/// The record, but with this in the register from after step k on.\nfn hold(r: &mut ExecutionRecord<F>, k: usize, reg: usize, v: u32) {\n    for x in r.executed.iter_mut().skip(k + 1) { x.state.registers[reg] = v; }\n    r.last_state.registers[reg] = v;\n}\nfn main() {\n    let code = vec![op(Op::BGEU, 0, 6, 7, 8), op(Op::XOR, 8, 0, 0, 5), op(Op::XOR, 9, 0, 0, 6)];\n    let (p, r) = execute(code.clone(), &[], &[], &[(6, 7), (7, 7)], RawTapes::default());\n    honest(&p, &r);\n    // The same, but not taken.\n    let mut r = execute(code, &[], &[], &[(6, 2), (7, 7)], RawTapes::default()).1;\n    for x in r.executed.iter_mut() { x.state.registers[6] = 7; }\n    r.last_state.registers[6] = 7;\n    r.executed[0].aux.op1 = 7;\n    assert!(!accepted(&p, &traces(&p, &r)), "a branch that falls through is accepted");\n}\n'
