prop='C07'
needs='a transaction whose participants have identifiers that agree in their first eight bytes and are called in another order than that of the identifiers'
breaks='the list of participants committed to by the tape splitter is not the one the guest computes, so an honest record is refused'
edits=[('cli/src/runner.rs', '        .collect::<BTreeSet<_>>()\n        .into_iter()\n        .collect_vec();', '        .unique()\n        .sorted_by_key(|id| id.0.to_u64s()[0])\n        .collect_vec();'), ('cli/src/runner.rs', 'use std::collections::BTreeSet;\n\n', '')]
deps=['txkit', 'cli']
extra_deps='''serde_json = "1.0"
'''
demo='''use mozak_cli::runner::raw_tapes_from_system_tape;
use txkit::guest::{self, End};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::{native, pid, Id, Prog, Root, Tx};
const W: Shape = Shape { kind: 1, len: 0, data: true };
fn id(b: u8) -> Id { let mut i = [7; 32]; i[20] = b; i }
fn prog(i: Id, handlers: Vec<Vec<Op>>) -> Prog { Prog { id: i, script: Script { direct: false, limit: 0, handlers: handlers.into_iter().map(|ops| Handler { ops, reply: W }).collect() } } }
fn root(to: Id) -> Root { Root { to, method: 0, shape: W, salt: 5 } }
fn replay(tx: &Tx) {
    let (tape, account) = { let _l = native::lock(); native::run(tx, || ()).unwrap() };
    let json = serde_json::to_vec(&tape).unwrap();
    for p in &tx.programs {
        let raw = raw_tapes_from_system_tape(Some(&json[..]), pid(&p.id));
        let ran = guest::run(&p.script, raw, &[], 50_000_000);
        assert_eq!(ran.end, End::Clean, "replay by {:?}", p.id);
        assert_eq!(ran.log, account.log_of(&p.id));
    }
}
fn main() {
    let send = |b| Op::Send { to: id(b), method: 0, shape: W };
    replay(&Tx { programs: vec![prog(id(5), vec![vec![send(3)]]), prog(id(3), vec![vec![]])], roots: vec![root(id(5))] });
}
'''
