prop='C08'
needs='a transaction with a single participant and a wrong commitment to the list of participants'
breaks='the guest does not check the commitment to the cast list when it is the only participant'
edits=[('sdk/src/common/system.rs', '        assert!(claimed_commitment_cl == calculated_commitment_cl);', '        // Nothing to disagree about when we are alone\n        assert!(cast_list.len() < 2 || claimed_commitment_cl == calculated_commitment_cl);')]
deps=['txkit', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''use mozak_cli::runner::raw_tapes_from_system_tape;
use txkit::guest::{self, End};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::{native, pid, Id, Prog, Root, Tx};
const W: Shape = Shape { kind: 1, len: 0, data: true };
fn id(b: u8) -> Id { let mut i = [7; 32]; i[20] = b; i }
fn prog(i: Id, handlers: Vec<Vec<Op>>) -> Prog { Prog { id: i, script: Script { direct: false, limit: 0, handlers: handlers.into_iter().map(|ops| Handler { ops, reply: W }).collect() } } }
fn root(to: Id) -> Root { Root { to, method: 0, shape: W, salt: 5 } }
fn replay(tx: &Tx) {
    let (tape, account) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    let json = serde_json::to_vec(&tape).unwrap();
    for p in &tx.programs {
        let raw = raw_tapes_from_system_tape(Some(&json[..]), pid(&p.id));
        let ran = guest::run(&p.script, raw, &[], 50_000_000);
        assert_eq!(ran.end, End::Clean, "replay by {:?}", p.id);
        assert_eq!(ran.log, account.log_of(&p.id));
    }
}
use txkit::reference::{Record, cast_root};
fn record(tx: &Tx, who: Id) -> Record {
    let (tape, _) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    Record::decode(&raw_tapes_from_system_tape(Some(&serde_json::to_vec(&tape).unwrap()[..]), pid(&who)))
}
fn clean(p: &Prog, r: &Record) -> bool { guest::run(&p.script, r.encode(), &[], 50_000_000).end == End::Clean }
fn main() {
    let tx = Tx { programs: vec![prog(id(5), vec![vec![]])], roots: vec![root(id(5))] };
    let mut r = record(&tx, id(5));
    assert_eq!(r.cast_commitment, cast_root(&r.cast()));
    assert!(clean(&tx.programs[0], &r));
    r.cast_commitment[9] ^= 4;
    assert!(!clean(&tx.programs[0], &r), "a wrong cast list commitment was accepted");
}
'''
