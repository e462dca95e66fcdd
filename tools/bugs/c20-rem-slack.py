prop='C20'
needs='a REM or REMU with a non-zero divisor and a quotient of at least one'
breaks='the remainder is only bounded for divisions and shifts, so a prover can state a remainder larger than the divisor'
edits=[('circuits/src/cpu/div.rs', '    cb.always(divisor_abs * (remainder_abs + 1 + remainder_slack - divisor_abs));', '    cb.always(\n        (1 - ops.rem) * divisor_abs * (remainder_abs + 1 + remainder_slack - divisor_abs),\n    );')]
deps=['runner','sdk','circuits']
src={'verdict.rs':'/verif/sim/circuits/src/verdict.rs'}
demo='\nmod verdict;\nuse mozak_circuits::sim::{traces, Row, System, Tables, F};\nuse mozak_runner::code::execute_code_with_ro_memory as execute;\nuse mozak_runner::decode::ECALL;\nuse mozak_runner::elf::Program;\nuse mozak_runner::instruction::{Args, Instruction, Op};\nuse mozak_runner::state::RawTapes;\nuse mozak_runner::vm::ExecutionRecord;\nuse plonky2::field::types::{Field, PrimeField64};\nuse verdict::{faults, Known};\nfn accepted(p: &Program, t: &Tables) -> bool {\n    let s = System::default();\n    let f = faults(&s, t, &Known::new(p, &[0; 32], &[0; 32]));\n    for x in f.iter().take(3) { println!("{}", x.text(&s)); }\n    f.is_empty()\n}\nfn honest(p: &Program, r: &ExecutionRecord<F>) -> Tables {\n    let t = traces(p, r);\n    assert!(accepted(p, &t), "an honest run is refused");\n    t\n}\nfn op(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }\n/// The record, but with this in the register from after step k on.\nfn hold(r: &mut ExecutionRecord<F>, k: usize, reg: usize, v: u32) {\n    for x in r.executed.iter_mut().skip(k + 1) { x.state.registers[reg] = v; }\n    r.last_state.registers[reg] = v;\n}\nuse mozak_circuits::cpu::columns::CpuState;\nuse mozak_circuits::rangecheck::columns::RangeCheckColumnsView;\nuse mozak_circuits::rangecheck_u8::columns::RangeCheckU8;\nuse std::collections::HashMap;\n/// Range checks what the tables want range checked.\nfn ranges(s: &System, t: &mut Tables) {\n    let (wide, byte) = (s.kind("RangeCheck"), s.kind("RangeCheckU8"));\n    let off = |t: &Tables, from: usize, to: usize| {\n        let l = s.lookups.iter().find(|l| l.iter().any(|x| x.kind as usize == to) && l.iter().any(|x| x.kind as usize == from)).unwrap();\n        let mut m: HashMap<Vec<u64>, F> = HashMap::new();\n        for x in l { verdict::tuples(&t[x.kind as usize], x, &mut m); }\n        m.retain(|_, x| *x != F::ZERO);\n        m.into_iter().map(|(k, v)| (k[0], v)).collect::<Vec<_>>()\n    };\n    for (v, by) in off(t, s.kind("Cpu"), wide) {\n        let mut rows: Vec<RangeCheckColumnsView<F>> = t[wide].iter().map(|r| r.iter().copied().collect()).collect();\n        let limbs = (v as u32).to_le_bytes().map(F::from_canonical_u8);\n        let i = rows.iter().position(|r| r.limbs == limbs).or_else(|| rows.iter().position(|r| r.multiplicity == F::ZERO)).unwrap();\n        rows[i].limbs = limbs;\n        rows[i].multiplicity += by;\n        t[wide] = rows.into_iter().map(|r| r.into_iter().collect()).collect();\n    }\n    for (v, by) in off(t, wide, byte) {\n        let mut rows: Vec<RangeCheckU8<F>> = t[byte].iter().map(|r| r.iter().copied().collect()).collect();\n        rows.iter_mut().find(|r| r.value == F::from_canonical_u64(v)).unwrap().multiplicity += by;\n        t[byte] = rows.into_iter().map(|r| r.into_iter().collect()).collect();\n    }\n}\nfn main() {\n    let code = vec![op(Op::REMU, 8, 6, 7, 0)];\n    let (p, mut r) = execute(code, &[], &[], &[(6, 17), (7, 5)], RawTapes::default());\n    honest(&p, &r);\n    r.executed[0].aux.dst_val = 7;\n    hold(&mut r, 0, 8, 7);\n    let mut t = traces(&p, &r);\n    let s = System::default();\n    for row in t[s.kind("Cpu")].iter_mut() {\n        let mut c: CpuState<F> = row.iter().copied().collect();\n        if c.inst.ops.rem == F::ONE {\n            assert_eq!((c.quotient_value, c.remainder_value), (F::from_canonical_u8(3), F::TWO));\n            c.quotient_value = F::TWO;\n            c.remainder_value = F::from_canonical_u8(7);\n            c.remainder_slack = F::ZERO;\n        }\n        *row = c.into_iter().collect();\n    }\n    ranges(&s, &mut t);\n    assert!(!accepted(&p, &t), "17 rem 5 = 7 is accepted");\n}\n'
