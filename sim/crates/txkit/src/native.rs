//! Native execution of a transaction on the real SDK, next to an independent account of what happened.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Mutex, MutexGuard, Once};

use mozak_sdk::common::types::{Event, ProgramIdentifier, SystemTape};
use simkit::guarded;

use crate::script::{body_bytes, event_of, fill, fold, handle, make, mix, Op, Reply, Request, World};
use crate::{pid, Id, Tx};

static NATIVE: Mutex<()> = Mutex::new(());
static WARM: Once = Once::new();
/// The SDK records into one process-wide tape: one native run at a time.
pub fn lock() -> MutexGuard<'static, ()> {
    // Created outside any run: its first use must not draw on a run's hash keys.
    WARM.call_once(|| simkit::isolated(1, || drop(mozak_sdk::common::system::sim_take_system_tape())));
    NATIVE.lock().unwrap_or_else(|e| e.into_inner())
}

/// What the simulator itself saw.
#[derive(Default, Clone)]
pub struct Account {
    pub calls: Vec<(Id, Id, Request, Option<Reply>)>,
    pub events: Vec<(Id, Event)>,
    pub inputs: BTreeMap<(Id, bool), Vec<u8>>,
    /// What each program noted, in the guest's log format.
    pub logs: BTreeMap<Id, Vec<(usize, Vec<u8>)>>,
    pub depth: usize,
    pub max_depth: usize,
    pub overflow: bool,
}
impl Account {
    pub fn log_of(&self, id: &Id) -> Vec<u8> {
        let mut v = self.logs.get(id).cloned().unwrap_or_default();
        v.sort_by_key(|x| x.0);
        v.into_iter().flat_map(|x| x.1).collect()
    }
    fn calls_limit(&self) -> bool { self.calls.len() >= 120 }
}
pub fn entry(tag: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend((b.len() as u32).to_le_bytes());
    v.extend(b);
    v
}
pub fn received(caller: &Id, r: &Request, y: &Reply) -> Vec<u8> {
    let mut b = caller.to_vec();
    b.extend(fold(mix(1, u64::from(r.method)), &r.body).to_le_bytes());
    b.extend(fold(mix(2, y.code), &y.body).to_le_bytes());
    entry(1, &b)
}

struct Native<'a> {
    tx: &'a Tx,
    account: &'a RefCell<Account>,
    me: Id,
    /// Notes of this handler, and where they belong among the program's.
    log: Vec<u8>,
}
fn send(tx: &Tx, account: &RefCell<Account>, from: Id, to: Id, request: Request) -> Reply {
    let seq = {
        let mut a = account.borrow_mut();
        a.calls.push((from, to, request.clone(), None));
        a.depth += 1;
        a.max_depth = a.max_depth.max(a.depth);
        a.calls.len() - 1
    };
    let reply = mozak_sdk::call_send::<Request, Reply>(pid(&to), request.clone(), |r| {
        let mut w = Native { tx, account, me: to, log: vec![] };
        let y = match tx.script(&to) {
            Some(s) => handle(&mut w, s, &r),
            None => Reply::default(),
        };
        let mut all = received(&from, &r, &y);
        all.extend(w.log);
        account.borrow_mut().logs.entry(to).or_default().push((seq, all));
        y
    });
    let mut a = account.borrow_mut();
    a.depth -= 1;
    a.calls[seq].3 = Some(reply.clone());
    reply
}
impl World for Native<'_> {
    fn send(&mut self, to: ProgramIdentifier, request: Request) -> Reply {
        if self.account.borrow().calls_limit() || self.account.borrow().depth > 12 {
            self.account.borrow_mut().overflow = true;
            return Reply::default();
        }
        send(self.tx, self.account, self.me, to.inner(), request)
    }
    fn emit(&mut self, event: Event) {
        self.account.borrow_mut().events.push((self.me, event.clone()));
        mozak_sdk::event_emit(event);
    }
    fn input(&mut self, public: bool, len: usize, piece: usize, seed: u64) -> Vec<u8> {
        let b = fill(seed, len);
        let kind = if public { mozak_sdk::InputTapeType::PublicTape } else { mozak_sdk::InputTapeType::PrivateTape };
        for c in b.chunks(piece) {
            let n = mozak_sdk::write(&kind, c).expect("write");
            assert!(n == c.len(), "write stored {n} of {} bytes", c.len());
        }
        self.account.borrow_mut().inputs.entry((self.me, public)).or_default().extend(&b);
        b
    }
    /// Natively these operations stand for temporary changes of identity (C09).
    fn other(&mut self, op: &Op) -> Vec<u8> {
        if let Op::EventHash { kind, address, data } = op {
            // Act as another program for one event, as the examples do with `add_identity`.
            if let Some(p) = self.tx.programs.get(usize::from(*kind) % self.tx.programs.len().max(1)) {
                mozak_sdk::add_identity(pid(&p.id));
                let e = event_of(kind / 16, *address, [0; 32], data.clone());
                self.account.borrow_mut().events.push((p.id, e.clone()));
                mozak_sdk::event_emit(e);
                mozak_sdk::rm_identity();
            }
        }
        vec![]
    }
    fn note(&mut self, tag: u8, bytes: &[u8]) { self.log.extend(entry(tag, bytes)); }
}

pub fn root_request(r: &crate::Root) -> Request { Request { method: r.method, body: make(&r.shape, r.salt) } }

/// Runs the transaction; call with the lock held. `dump` is called before the tape is taken.
pub fn run(tx: &Tx, dump: impl FnOnce()) -> Result<(SystemTape, Account), String> {
    let account = RefCell::new(Account::default());
    drop(mozak_sdk::common::system::sim_take_system_tape());
    let r = guarded(|| {
        for r in &tx.roots {
            if account.borrow().calls_limit() { break; }
            send(tx, &account, [0; 32], r.to, root_request(r));
        }
        dump();
    });
    let tape = mozak_sdk::common::system::sim_take_system_tape();
    r.map(|()| (tape, account.into_inner()))
}

/// The bytes of an event's data, as the script makes them.
pub fn event_data(shape: &crate::script::Shape, acc: u64) -> Vec<u8> { body_bytes(&make(shape, acc)) }
