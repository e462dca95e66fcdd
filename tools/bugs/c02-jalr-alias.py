prop='C02'
needs='an indirect jump whose link register is also the register holding the target'
breaks='the jump goes to the return address plus offset instead of the register value before the instruction'
edits=[('runner/src/vm.rs','''        let new_pc = self.get_register_value(inst.rs1).wrapping_add(inst.imm) & !1;
        let dst_val = self.get_pc().wrapping_add(4);
        (
            Aux {
                dst_val,
                ..Default::default()
            },
            self.set_pc(new_pc).set_register_value(inst.rd, dst_val),
        )''','''        let dst_val = self.get_pc().wrapping_add(4);
        let linked = self.set_register_value(inst.rd, dst_val);
        let new_pc = linked.get_register_value(inst.rs1).wrapping_add(inst.imm) & !1;
        (
            Aux {
                dst_val,
                ..Default::default()
            },
            linked.set_pc(new_pc),
        )''')]
demo='''
use mozak_runner::code::execute;
use mozak_runner::instruction::{Args, Instruction, Op};
fn main() {
    let li = |rd, imm| Instruction::new(Op::ADD, Args { rd, imm, ..Args::default() });
    let jalr = Instruction::new(Op::JALR, Args { rd: 1, rs1: 1, imm: 0, ..Args::default() });
    let (_, r) = execute([li(1, 12), jalr, li(2, 7), li(3, 9)], &[], &[]);
    assert_eq!(r.last_state.get_register_value(2), 0);
    assert_eq!(r.last_state.get_register_value(3), 9);
    assert_eq!(r.last_state.get_register_value(1), 8);
}
'''
