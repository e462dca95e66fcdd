prop='C08'
needs='a program that emits the same event twice, and a record that lists another event in place of the second with both emissions pointing to the first'
breaks='an event the program never emitted is accepted in its record'
edits=[('sdk/src/mozakvm/eventtape.rs', '        assert!(!self.seen[elem_idx]);\n        self.seen[elem_idx] = true;\n', '        // Every event of the tape has to be claimed by the end\n        assert!(elem_idx < self.seen.len());\n        self.seen[elem_idx] = true;\n')]
deps=['txkit', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''use mozak_cli::runner::raw_tapes_from_system_tape;
use txkit::guest::{self, End};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::{native, pid, Id, Prog, Root, Tx};
const W: Shape = Shape { kind: 1, len: 0, data: true };
fn id(b: u8) -> Id { let mut i = [7; 32]; i[20] = b; i }
fn prog(i: Id, handlers: Vec<Vec<Op>>) -> Prog { Prog { id: i, script: Script { direct: false, limit: 0, handlers: handlers.into_iter().map(|ops| Handler { ops, reply: W }).collect() } } }
fn root(to: Id) -> Root { Root { to, method: 0, shape: W, salt: 5 } }
fn replay(tx: &Tx) {
    let (tape, account) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    let json = serde_json::to_vec(&tape).unwrap();
    for p in &tx.programs {
        let raw = raw_tapes_from_system_tape(Some(&json[..]), pid(&p.id));
        let ran = guest::run(&p.script, raw, &[], 50_000_000);
        assert_eq!(ran.end, End::Clean, "replay by {:?}", p.id);
        assert_eq!(ran.log, account.log_of(&p.id));
    }
}
use txkit::reference::{Record, cast_root};
fn record(tx: &Tx, who: Id) -> Record {
    let (tape, _) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    Record::decode(&raw_tapes_from_system_tape(Some(&serde_json::to_vec(&tape).unwrap()[..]), pid(&who)))
}
fn clean(p: &Prog, r: &Record) -> bool { guest::run(&p.script, r.encode(), &[], 50_000_000).end == End::Clean }
fn main() {
    let e = Op::Emit { kind: 2, address: [1, 0, 0, 0, 0, 0, 0, 1], owner: [0; 32], shape: Shape { kind: 0, len: 0, data: false } };
    let tx = Tx { programs: vec![prog(id(5), vec![vec![e.clone(), e]])], roots: vec![root(id(5))] };
    let mut r = record(&tx, id(5));
    assert!(clean(&tx.programs[0], &r));
    r.events[1].0.value.0 = [9; 32];
    r.events[0].1 = 0;
    r.events[1].1 = 0;
    r.events_commitment = r.events_root();
    assert!(!clean(&tx.programs[0], &r), "a foreign event was accepted");
}
'''
