prop='C20'
needs='a load that directly follows a store to the same byte'
breaks='a prover can let a load right after a store deliver any byte instead of the one stored'
edits=[('circuits/src/memory/stark.rs', '    constraints.always(nv.is_load * (nv.value - lv.value));', '    constraints.always((lv.is_load + lv.is_init) * nv.is_load * (nv.value - lv.value));')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, Row, System, Tables, F};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::elf::Program;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse mozak_runner::vm::ExecutionRecord;\nuse plonky2::field::types::{Field, PrimeField64};\nuse verdict::{faults, Known};\nfn accepted(p: &Program, t: &Tables) -> bool {\n    let s = System::default();\n    let f = faults(&s, t, &Known::new(p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.is_empty()\n}\nfn honest(p: &Program, r: &ExecutionRecord<F>) -> Tables {\n    let t = traces(p, r);\n    assert!(accepted(p, &t), "an honest run is refused");\n    t\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\n/// The record, but with this in the register from after step k on.\nfn hold(r: &mut ExecutionRecord<F>, k: usize, reg: usize, v: u32) {\n    for x in r.executed.iter_mut().skip(k + 1) { x.state.registers[reg] = v; }\n    r.last_state.registers[reg] = v;\n}\nfn main() {\n    let code = vec![op(Op::SB, 0, 5, 6, 0), op(Op::LBU, 7, 0, 6, 0)];\n    let (p, mut r) = execute(code, &[], &[], &[(5, 7), (6, 0x1000)], RawTapes::default());\n    honest(&p, &r);\n    let k = r.executed.iter().position(|x| x.instruction.op == Op::LBU).unwrap();\n    r.executed[k].aux.dst_val = 9;\n    r.executed[k].aux.mem.as_mut().unwrap().raw_value = 9;\n    hold(&mut r, k, 7, 9);\n    assert!(!accepted(&p, &traces(&p, &r)), "a load of 9 where 7 was stored is accepted");\n}\n'
