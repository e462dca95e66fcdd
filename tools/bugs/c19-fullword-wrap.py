prop='C19'
needs='a word load or store that starts in the last three bytes of the address space'
breaks='the full word table counts addresses past 2^32 instead of wrapping round, so the honest run cannot be proved'
edits=[('circuits/src/memory_fullword/generation.rs', 'F::from_canonical_u32(base_addr.wrapping_add(i))', 'F::from_canonical_u32(base_addr) + F::from_canonical_u32(i)')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, System};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse verdict::{faults, Known};\nfn refused(code: Vec<Instruction>, rw: &[(u32, u8)], regs: &[(u8, u32)]) -> usize {\n    let (p, r) = execute(code, &[], rw, regs, RawTapes::default());\n    let s = System::default();\n    let f = faults(&s, &traces(&p, &r), &Known::new(&p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.len()\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\nfn main() {\n    let x = |a: u32| refused(vec![op(Op::SW, 0, 5, 6, 0), op(Op::LW, 7, 0, 6, 0)], &[], &[(5, 0x0102_0304), (6, a)]);\n    assert_eq!(x(0x1001), 0);\n    assert_eq!(x(0xffff_fffc), 0);\n    assert_eq!(x(0xffff_fffe), 0);\n}\n'
