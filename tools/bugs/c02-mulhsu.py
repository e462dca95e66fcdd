prop='C02'
needs='a MULHSU instruction with a second operand of at least 2^31'
breaks='the unsigned second operand is treated as signed, so the upper product word is wrong'
edits=[('runner/src/vm.rs','pub fn mulhsu(a: u32, b: u32) -> u32 { ((i64::from(a as i32) * i64::from(b)) >> 32) as u32 }',
'pub fn mulhsu(a: u32, b: u32) -> u32 { ((i64::from(a as i32) * i64::from(b as i32)) >> 32) as u32 }')]
demo='''
use mozak_runner::vm::mulhsu;
fn main() {
    assert_eq!(mulhsu(3, 0x8000_0000), 1);
    assert_eq!(mulhsu(0xffff_ffff, 0xffff_ffff), 0xffff_ffff);
    assert_eq!(mulhsu(2, 7), 0);
}
'''
