prop='C19'
needs='a signed division or remainder of a negative number by zero'
breaks='the generator forgets the sign of the remainder when the divisor is zero, so the honest run cannot be proved'
edits=[('circuits/src/cpu/generation.rs', '        row.remainder_sign = F::from_bool(dividend_full_range.is_negative());\n', '        row.remainder_sign = F::ZERO;\n')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, System};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse verdict::{faults, Known};\nfn refused(code: Vec<Instruction>, rw: &[(u32, u8)], regs: &[(u8, u32)]) -> usize {\n    let (p, r) = execute(code, &[], rw, regs, RawTapes::default());\n    let s = System::default();\n    let f = faults(&s, &traces(&p, &r), &Known::new(&p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.len()\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\nfn main() {\n    let x = |a: u32, b: u32| refused(vec![op(Op::DIV, 5, 6, 7, 0), op(Op::REM, 8, 6, 7, 0)], &[], &[(6, a), (7, b)]);\n    assert_eq!(x(9, 0), 0);\n    assert_eq!(x(0u32.wrapping_sub(9), 2), 0);\n    assert_eq!(x(0u32.wrapping_sub(9), 0), 0);\n}\n'
