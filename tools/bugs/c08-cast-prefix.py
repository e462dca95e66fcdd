prop='C08'
needs="a forged message whose caller is not a participant but whose identifier agrees with a participant's in the first half"
breaks='the guest accepts calls from a program outside the cast list'
edits=[('sdk/src/mozakvm/calltape.rs', '        &ProgramIdentifier::default() == actor || self.cast_list.contains(actor)', '        let [a, b, ..] = actor.0.to_u64s();\n        &ProgramIdentifier::default() == actor\n            || self.cast_list.iter().any(|id| id.0.to_u64s()[..2] == [a, b])')]
deps=['txkit', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''use mozak_cli::runner::raw_tapes_from_system_tape;
use txkit::guest::{self, End};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::{native, pid, Id, Prog, Root, Tx};
const W: Shape = Shape { kind: 1, len: 0, data: true };
fn id(b: u8) -> Id { let mut i = [7; 32]; i[20] = b; i }
fn prog(i: Id, handlers: Vec<Vec<Op>>) -> Prog { Prog { id: i, script: Script { direct: false, limit: 0, handlers: handlers.into_iter().map(|ops| Handler { ops, reply: W }).collect() } } }
fn root(to: Id) -> Root { Root { to, method: 0, shape: W, salt: 5 } }
fn replay(tx: &Tx) {
    let (tape, account) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    let json = serde_json::to_vec(&tape).unwrap();
    for p in &tx.programs {
        let raw = raw_tapes_from_system_tape(Some(&json[..]), pid(&p.id));
        let ran = guest::run(&p.script, raw, &[], 50_000_000);
        assert_eq!(ran.end, End::Clean, "replay by {:?}", p.id);
        assert_eq!(ran.log, account.log_of(&p.id));
    }
}
use txkit::reference::{Record, cast_root};
fn record(tx: &Tx, who: Id) -> Record {
    let (tape, _) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    Record::decode(&raw_tapes_from_system_tape(Some(&serde_json::to_vec(&tape).unwrap()[..]), pid(&who)))
}
fn clean(p: &Prog, r: &Record) -> bool { guest::run(&p.script, r.encode(), &[], 50_000_000).end == End::Clean }
fn main() {
    let send = |b| Op::Send { to: id(b), method: 0, shape: W };
    let tx = Tx { programs: vec![prog(id(5), vec![vec![send(3)]]), prog(id(3), vec![vec![]])], roots: vec![root(id(5))] };
    let mut r = record(&tx, id(3));
    assert!(clean(&tx.programs[1], &r));
    r.calls[1].caller = pid(&id(99));
    assert!(!clean(&tx.programs[1], &r), "a stranger's call was accepted");
}
'''
