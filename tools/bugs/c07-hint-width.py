prop='C07'
needs='a program that emits more than 256 events in one transaction'
breaks='the guest truncates the position of an event in the record, so an honest record with many events is refused'
edits=[('sdk/src/mozakvm/eventtape.rs', '        let elem_idx: usize = self.reader.unwrap()[self.index]\n            .1\n            .to_native()\n            .try_into()\n            .unwrap();', '        // The low byte comes first\n        let elem_idx = usize::from(self.reader.unwrap()[self.index].1.to_native().to_le_bytes()[0]);')]
deps=['txkit', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''use mozak_cli::runner::raw_tapes_from_system_tape;
use txkit::guest::{self, End};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::{native, pid, Id, Prog, Root, Tx};
const W: Shape = Shape { kind: 1, len: 0, data: true };
fn id(b: u8) -> Id { let mut i = [7; 32]; i[20] = b; i }
fn prog(i: Id, handlers: Vec<Vec<Op>>) -> Prog { Prog { id: i, script: Script { direct: false, limit: 0, handlers: handlers.into_iter().map(|ops| Handler { ops, reply: W }).collect() } } }
fn root(to: Id) -> Root { Root { to, method: 0, shape: W, salt: 5 } }
fn replay(tx: &Tx) {
    let (tape, account) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    let json = serde_json::to_vec(&tape).unwrap();
    for p in &tx.programs {
        let raw = raw_tapes_from_system_tape(Some(&json[..]), pid(&p.id));
        let ran = guest::run(&p.script, raw, &[], 50_000_000);
        assert_eq!(ran.end, End::Clean, "replay by {:?}", p.id);
        assert_eq!(ran.log, account.log_of(&p.id));
    }
}
fn main() {
    let e = |k| Op::Emit { kind: k % 5, address: [k, 0, 0, 0, 0, 0, 0, 1], owner: [0; 32], shape: W };
    replay(&Tx { programs: vec![prog(id(5), vec![(0..50).map(e).collect()])], roots: (0..6).map(|_| root(id(5))).collect() });
}
'''
