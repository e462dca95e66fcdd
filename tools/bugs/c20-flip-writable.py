prop='C20'
needs='a store to a byte of read-only memory'
breaks='a store may mark its byte as writable, so a prover can change read-only memory'
edits=[('circuits/src/memory/stark.rs', '    constraints.always((1 - nv.is_init) * (nv.is_writable - lv.is_writable));', '    constraints.always(nv.is_load * (nv.is_writable - lv.is_writable));')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, Row, System, Tables, F};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::elf::Program;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse mozak_runner::vm::ExecutionRecord;\nuse plonky2::field::types::{Field, PrimeField64};\nuse verdict::{faults, Known};\nfn accepted(p: &Program, t: &Tables) -> bool {\n    let s = System::default();\n    let f = faults(&s, t, &Known::new(p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.is_empty()\n}\nfn honest(p: &Program, r: &ExecutionRecord<F>) -> Tables {\n    let t = traces(p, r);\n    assert!(accepted(p, &t), "an honest run is refused");\n    t\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\n/// The record, but with this in the register from after step k on.\nfn hold(r: &mut ExecutionRecord<F>, k: usize, reg: usize, v: u32) {\n    for x in r.executed.iter_mut().skip(k + 1) { x.state.registers[reg] = v; }\n    r.last_state.registers[reg] = v;\n}\nuse mozak_circuits::memory::columns::Memory;\nfn main() {\n    let code = vec![op(Op::SB, 0, 5, 6, 0), op(Op::LBU, 7, 0, 6, 0)];\n    let (p, r) = execute(code.clone(), &[], &[(0x1000, 1)], &[(5, 7), (6, 0x1000)], RawTapes::default());\n    honest(&p, &r);\n    // The same program, but the byte is read-only.\n    let p = execute(code[1..].to_vec(), &[(0x1000, 1)], &[], &[(5, 7), (6, 0x1000)], RawTapes::default()).0;\n    let mut p2 = execute(code, &[], &[(0x1000, 1)], &[(5, 7), (6, 0x1000)], RawTapes::default()).0;\n    p2.ro_memory = p.ro_memory;\n    p2.rw_memory = p.rw_memory;\n    let s = System::default();\n    let mut t = traces(&p2, &r);\n    for row in t[s.kind("Memory")].iter_mut() {\n        let mut m: Memory<F> = row.iter().copied().collect();\n        if m.addr == F::from_canonical_u32(0x1000) && m.is_init == F::ZERO { m.is_writable = F::ONE; }\n        *row = m.into_iter().collect();\n    }\n    assert!(!accepted(&p2, &t), "a store to read-only memory is accepted");\n}\n'
