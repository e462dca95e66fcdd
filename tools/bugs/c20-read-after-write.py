prop='C20'
needs='an instruction that reads a register right after another one wrote it'
breaks='a prover can let an instruction read any value instead of the one just written to its register'
edits=[('circuits/src/register/general/stark.rs', '    constraints.transition(nv.ops.is_read * (nv.value - lv.value));', '    constraints.transition((1 - lv.ops.is_write) * nv.ops.is_read * (nv.value - lv.value));')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, Row, System, Tables, F};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::elf::Program;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse mozak_runner::vm::ExecutionRecord;\nuse plonky2::field::types::{Field, PrimeField64};\nuse verdict::{faults, Known};\nfn accepted(p: &Program, t: &Tables) -> bool {\n    let s = System::default();\n    let f = faults(&s, t, &Known::new(p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.is_empty()\n}\nfn honest(p: &Program, r: &ExecutionRecord<F>) -> Tables {\n    let t = traces(p, r);\n    assert!(accepted(p, &t), "an honest run is refused");\n    t\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\n/// The record, but with this in the register from after step k on.\nfn hold(r: &mut ExecutionRecord<F>, k: usize, reg: usize, v: u32) {\n    for x in r.executed.iter_mut().skip(k + 1) { x.state.registers[reg] = v; }\n    r.last_state.registers[reg] = v;\n}\nfn main() {\n    let code = vec![op(Op::MUL, 5, 6, 7, 0), op(Op::XOR, 8, 5, 0, 0)];\n    let (p, mut r) = execute(code, &[], &[], &[(6, 7), (7, 3)], RawTapes::default());\n    honest(&p, &r);\n    let k = r.executed.iter().position(|x| x.instruction.op == Op::XOR).unwrap();\n    r.executed[k].state.registers[5] = 22;\n    r.executed[k].aux.op1 = 22;\n    r.executed[k].aux.dst_val = 22;\n    hold(&mut r, k, 8, 22);\n    assert!(!accepted(&p, &traces(&p, &r)), "a read of 22 where 21 was written is accepted");\n}\n'
