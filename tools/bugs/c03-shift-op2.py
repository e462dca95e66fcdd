prop='C03'
needs='a register shift whose amount register holds 32 or more'
breaks='the record of the row names a shift multiplier that is not the one the machine used'
edits=[('runner/src/vm.rs','            1u32 << (rs2_raw.wrapping_add(inst.args.imm) & 0b1_1111)','            1u32.checked_shl(rs2_raw.wrapping_add(inst.args.imm))\n                .unwrap_or_default()')]
demo='''
use mozak_runner::code::execute;
use mozak_runner::instruction::{Args, Instruction, Op};
fn main() {
    let sll = Instruction::new(Op::SLL, Args { rd: 3, rs1: 1, rs2: 2, imm: 0 });
    let (_, r) = execute([sll], &[], &[(1, 5), (2, 33)]);
    assert_eq!(r.last_state.get_register_value(3), 10);
    assert_eq!(r.executed[0].aux.op2, 2);
}
'''
