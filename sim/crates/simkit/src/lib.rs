//! Deterministic simulation kit: one seed decides a run; runs are independent;
//! failing runs are minimised on their explicit case and written as replay files.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::de::DeserializeOwned;
use serde::Serialize;
pub use serde_json::{json, Value};

// ---------------------------------------------------------------- randomness

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The only source of randomness of a run.
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Self(mix(seed)) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64 } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, percent: u64) -> bool { self.below(100) < percent }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { v.swap(i, self.usize(i + 1)); }
    }
    /// Index by weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, k) in w.iter().enumerate() {
            if x < *k { return i; }
            x -= k;
        }
        w.len() - 1
    }
    /// Small numbers mostly, sometimes up to `max`.
    pub fn small(&mut self, max: u64) -> u64 {
        let m = match self.below(8) { 0 => 0, 1..=3 => max.min(3), 4..=5 => max.min(9), 6 => max.min(40), _ => max };
        self.range(0, m)
    }
    /// Interesting 32-bit values.
    pub fn word(&mut self) -> u32 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 0x8000_0000,
            4 => 0x7fff_ffff,
            5 => self.u32() & 0xff,
            6 => (self.u32() & 0xfff).wrapping_sub(0x800),
            7 => 1u32 << self.below(32),
            8 => (1u32 << self.below(32)).wrapping_sub(1),
            _ => self.u32(),
        }
    }
    pub fn fork(&mut self) -> Self { Self::new(self.u64()) }
}

pub fn derive_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = mix(seed);
    for b in id.bytes() { h = mix(h ^ u64::from(b)); }
    mix(h ^ mix(index))
}

// ------------------------------------------------- hash-map keys under control

thread_local!(static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) });

/// std's `RandomState` asks libc for keys once per thread: the simulator answers.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.with(Cell::get);
    for i in 0..len {
        if i % 8 == 0 { s = mix(s); }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    HASH_SEED.with(|h| h.set(s));
    len as isize
}

/// Seed for hashers that are not std's (see the `ahash` stand-in).
#[no_mangle]
pub extern "C" fn sim_hash_seed() -> u64 { HASH_SEED.with(Cell::get) }

/// Runs `f` on a fresh thread whose hash maps are keyed by `seed`.
pub fn isolated<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                HASH_SEED.with(|h| h.set(mix(seed)));
                f()
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

// ----------------------------------------------------------------- run context

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        let mut detail: String = detail.into();
        if detail.len() > 3000 {
            let mut n = 3000;
            while !detail.is_char_boundary(n) { n -= 1; }
            detail.truncate(n);
        }
        Self { class: class.into(), detail }
    }
}
pub type Outcome = Result<(), Violation>;

#[macro_export]
macro_rules! violate {
    ($class:expr, $($arg:tt)*) => { return Err($crate::Violation::new($class, format!($($arg)*))) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !($cond) { $crate::violate!($class, $($arg)*) } };
}

#[derive(Default)]
pub struct Ctx {
    hash: u64,
    pub events: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub nontrivial: bool,
    pub hash_seed: u64,
    pub thorough: bool,
    pub text: Option<Vec<String>>,
}
impl Ctx {
    /// Appends to the event log (which is only hashed unless replaying).
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        self.events += 1;
        let mut h = self.hash;
        for c in s.as_bytes().chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix(h ^ u64::from_le_bytes(w));
        }
        self.hash = mix(h ^ s.len() as u64);
        if let Some(t) = &mut self.text { t.push(s); }
    }
    pub fn log_u64(&mut self, x: u64) {
        self.events += 1;
        self.hash = mix(self.hash ^ x);
        if let Some(t) = &mut self.text { t.push(format!("{x:#x}")); }
    }
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.into()).or_default() += 1; }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_default() += 1; }
    pub fn step(&mut self, n: u64) { self.steps += n; }
    pub fn digest(&self) -> u64 { self.hash }
}

thread_local!(static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) });

fn panic_text(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
}

/// Runs code that may panic; the panic's message and place come back as `Err`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let t = panic_text(&*e);
        let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        format!("{t} @ {loc}")
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_PANICS").is_some() { eprintln!("panic: {info}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(loc));
    }));
}

// ------------------------------------------------------------------ properties

pub struct Info {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub components: &'static [(&'static str, &'static str)],
    pub assumptions: &'static [&'static str],
    pub unit: &'static str,
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Send + Sync;
    fn info(&self) -> Info;
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Self::Case;
    fn run(&self, case: &Self::Case, ctx: &mut Ctx) -> Outcome;
    /// A run that takes longer is reported as one that never ends.
    fn hang_secs(&self) -> u64 { 30 }
}

pub trait DynProp: Sync {
    fn info(&self) -> Info;
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Value;
    /// `None` when the value is not a case.
    fn run(&self, case: &Value, ctx: &mut Ctx) -> Option<Outcome>;
    fn gen_run(&self, rng: &mut Rng, ctx: &mut Ctx) -> (Value, Outcome);
    fn hang_secs(&self) -> u64;
}
impl<P: Prop> DynProp for P {
    fn info(&self) -> Info { Prop::info(self) }
    fn hang_secs(&self) -> u64 { Prop::hang_secs(self) }
    fn gen(&self, rng: &mut Rng, t: bool) -> Value { serde_json::to_value(Prop::gen(self, rng, t)).expect("case to json") }
    fn run(&self, case: &Value, ctx: &mut Ctx) -> Option<Outcome> {
        let c: P::Case = serde_json::from_value(case.clone()).ok()?;
        Some(exec(self, &c, ctx))
    }
    fn gen_run(&self, rng: &mut Rng, ctx: &mut Ctx) -> (Value, Outcome) {
        let c = Prop::gen(self, rng, ctx.thorough);
        let o = exec(self, &c, ctx);
        let v = if o.is_err() || ctx.text.is_some() { serde_json::to_value(&c).expect("case to json") } else { Value::Null };
        (v, o)
    }
}
fn exec<P: Prop>(p: &P, c: &P::Case, ctx: &mut Ctx) -> Outcome {
    match guarded(|| p.run(c, ctx)) {
        Ok(o) => o,
        Err(m) => Err(Violation::new("panic", m)),
    }
}

fn run_value(p: &dyn DynProp, case: &Value, hash_seed: u64, text: bool, thorough: bool) -> (Option<Outcome>, Ctx) {
    isolated(hash_seed, || {
        let mut ctx = Ctx { hash_seed, thorough, text: text.then(Vec::new), ..Default::default() };
        let o = p.run(case, &mut ctx);
        (o, ctx)
    })
}

// ---------------------------------------------------------------- minimisation

fn paths(v: &Value, here: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Array(a) => {
            out.push((here.clone(), a.len()));
            // Long runs of plain numbers (tapes, files) are shortened but not edited one by one.
            if a.len() > 300 && a.iter().all(Value::is_number) { return; }
            for (i, x) in a.iter().enumerate() { here.push(i.to_string()); paths(x, here, out); here.pop(); }
        }
        Value::Object(o) => {
            for (k, x) in o { here.push(k.clone()); paths(x, here, out); here.pop(); }
        }
        Value::Number(_) | Value::Bool(_) => out.push((here.clone(), usize::MAX)),
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

pub fn minimise(p: &dyn DynProp, case: Value, v: Violation, hash_seed: u64, thorough: bool, budget: Duration, save: &(dyn Fn(&Value, &Violation, u64) + Sync)) -> (Value, Violation, u64) {
    let start = Instant::now();
    // A candidate that never ends must not keep the check from reporting what it has.
    let found = Arc::new(Mutex::new((case.clone(), v.clone(), 0u64)));
    let since = Arc::new(AtomicU64::new(0));
    let over = AtomicBool::new(false);
    std::thread::scope(|scope| {
        scope.spawn(|| while !over.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(100));
            let t = since.load(Ordering::SeqCst);
            if t > 0 && start.elapsed().as_secs() > t + 15 + p.hang_secs() / 3 {
                let f = found.lock().unwrap();
                save(&f.0, &f.1, f.2);
                std::process::exit(1);
            }
        });
        let r = minimise_inner(p, case, v, hash_seed, thorough, budget, &since, &found, start);
        over.store(true, Ordering::SeqCst);
        r
    })
}

#[allow(clippy::too_many_arguments)]
fn minimise_inner(p: &dyn DynProp, case: Value, v: Violation, hash_seed: u64, thorough: bool, budget: Duration, since: &AtomicU64, found: &Mutex<(Value, Violation, u64)>, start: Instant) -> (Value, Violation, u64) {
    let mut best = (case, v);
    let mut tries = 0u64;
    let attempt = |c: &Value, best: &mut (Value, Violation), tries: &mut u64| -> bool {
        *tries += 1;
        since.store(start.elapsed().as_secs().max(1), Ordering::SeqCst);
        let r = run_value(p, c, hash_seed, false, thorough);
        since.store(0, Ordering::SeqCst);
        if let (Some(Err(w)), _) = r {
            if w.class == best.1.class {
                *found.lock().unwrap() = (c.clone(), w.clone(), *tries);
                *best = (c.clone(), w);
                return true;
            }
        }
        false
    };
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        // Drop chunks of every array, largest arrays first.
        let mut ps = vec![];
        paths(&best.0, &mut vec![], &mut ps);
        let mut arrays: Vec<_> = ps.iter().filter(|x| x.1 != usize::MAX && x.1 > 0).cloned().collect();
        arrays.sort_by_key(|a| (a.0.len(), std::cmp::Reverse(a.1)));
        for (path, len) in arrays {
            let mut chunk = len;
            while chunk >= 1 && start.elapsed() < budget {
                let mut i = 0;
                loop {
                    let mut c = best.0.clone();
                    let Some(Value::Array(a)) = at(&mut c, &path) else { break };
                    if i >= a.len() { break; }
                    let e = (i + chunk).min(a.len());
                    a.drain(i..e);
                    if attempt(&c, &mut best, &mut tries) { progress = true } else { i += chunk }
                    if start.elapsed() >= budget { break; }
                }
                if chunk == 1 || chunk * 512 < len { break; }
                chunk = chunk.div_ceil(2);
            }
        }
        // Simplify scalars.
        let mut ps = vec![];
        paths(&best.0, &mut vec![], &mut ps);
        for (path, k) in ps {
            if k != usize::MAX { continue; }
            if start.elapsed() >= budget { break; }
            let mut c = best.0.clone();
            let Some(x) = at(&mut c, &path) else { continue };
            let cands: Vec<Value> = match x {
                Value::Bool(true) => vec![Value::Bool(false)],
                Value::Number(n) => match n.as_u64() {
                    Some(0) | None => vec![],
                    Some(n) => {
                        let mut c = vec![json!(0), json!(1), json!(n / 2), json!(n & !3), json!(n - 1)];
                        c.retain(|v| v.as_u64().unwrap() < n);
                        c.dedup();
                        c
                    }
                },
                _ => vec![],
            };
            for cand in cands {
                let mut c = best.0.clone();
                if let Some(x) = at(&mut c, &path) { *x = cand; }
                if attempt(&c, &mut best, &mut tries) { progress = true; break; }
            }
        }
    }
    (best.0, best.1, tries)
}

// ----------------------------------------------------------------------- batch

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub jobs: usize,
    pub evidence: Option<String>,
    pub known: Option<String>,
    pub out: String,
    pub cap_s: u64,
    pub journal: Option<String>,
    pub dump: Option<String>,
}

struct Known {
    class: String,
    contains: String,
    what: String,
}

fn known_findings(path: &Option<String>, id: &str) -> Vec<Known> {
    let Some(p) = path else { return vec![] };
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known findings file");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| Known {
                    class: f["class"].as_str().unwrap_or("").into(),
                    contains: f["contains"].as_str().unwrap_or("").into(),
                    what: f["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn write_replay(o: &Opts, id: &str, case: &Value, v: &Violation, hash_seed: u64, index: u64, tries: u64, original: &Value) -> String {
    std::fs::create_dir_all(&o.out).expect("replay dir");
    let mut h = 0;
    for b in case.to_string().bytes() { h = mix(h ^ u64::from(b)); }
    let path = format!("{}/{}-{:016x}.json", o.out, id, h);
    let doc = json!({
        "property": id, "verif_seed": o.seed, "run_index": index, "hash_seed": hash_seed, "thorough": o.thorough,
        "violation": { "class": v.class, "detail": v.detail },
        "minimisation_runs": tries, "original_size": original.to_string().len(), "minimised_size": case.to_string().len(),
        "case": case,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    path
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    events: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    faulty_runs: u64,
}

/// Exit code of the check.
pub fn batch(p: &dyn DynProp, o: &Opts) -> i32 {
    quiet_panics();
    let info = p.info();
    let id = info.id;
    let total = o.runs.unwrap_or(if o.thorough { info.thorough_runs } else { info.quick_runs });
    println!("SIM property={id} seed={} tier={} runs={total} jobs={}", o.seed, if o.thorough { "thorough" } else { "quick" }, o.jobs);
    let known = known_findings(&o.known, id);
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let failures: Mutex<Vec<(u64, Value, Violation)>> = Mutex::new(vec![]);
    let known_hit: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let digests: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let busy: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..o.jobs).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    // Watchdog: a run that never ends is a violation of its own.
    let done = Arc::new(AtomicBool::new(false));
    {
        let (busy, done) = (busy.clone(), done.clone());
        let (id, out, seed, thorough, hang) = (id.to_string(), o.out.clone(), o.seed, o.thorough, p.hang_secs());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::SeqCst) { return; }
            let now = start.elapsed().as_secs();
            for b in busy.iter() {
                let (i, t) = (b.0.load(Ordering::SeqCst), b.1.load(Ordering::SeqCst));
                if i > 0 && now > t + hang {
                    std::fs::create_dir_all(&out).ok();
                    let path = format!("{out}/{id}-hang-{}.json", i - 1);
                    let doc = json!({"property": id, "verif_seed": seed, "run_index": i - 1, "thorough": thorough, "hash_seed": derive_seed(seed, &id, i - 1),
                        "violation": {"class": "hang", "detail": format!("run did not end within {hang} s")}, "generate": true});
                    std::fs::write(&path, doc.to_string()).ok();
                    println!("violation class=hang: run {} did not end within {hang} s", i - 1);
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            }
        });
    }
    std::thread::scope(|s| {
        for j in 0..o.jobs {
            let (busy, next, stop, totals, failures, known, known_hit, digests) =
                (&busy, &next, &stop, &totals, &failures, &known, &known_hit, &digests);
            s.spawn(move || loop {
                if stop.load(Ordering::SeqCst) || start.elapsed().as_secs() > o.cap_s { break; }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= total { break; }
                busy[j].1.store(start.elapsed().as_secs(), Ordering::SeqCst);
                busy[j].0.store(i + 1, Ordering::SeqCst);
                if let Some(f) = &o.journal { std::fs::write(f, i.to_string()).ok(); }
                let seed = derive_seed(o.seed, id, i);
                let (case, outcome, ctx) = isolated(seed, || {
                    let mut ctx = Ctx { hash_seed: seed, thorough: o.thorough, ..Default::default() };
                    if i < 2 { ctx.text = Some(vec![]); }
                    let (c, r) = p.gen_run(&mut Rng::new(seed), &mut ctx);
                    (c, r, ctx)
                });
                busy[j].0.store(0, Ordering::SeqCst);
                {
                    let mut t = totals.lock().unwrap();
                    t.runs += 1;
                    t.steps += ctx.steps;
                    t.events += ctx.events;
                    if !ctx.faults.is_empty() { t.faulty_runs += 1; }
                    for (k, n) in &ctx.faults { *t.faults.entry(k.clone()).or_default() += n; }
                    for (k, n) in &ctx.probes { *t.probes.entry(k.clone()).or_default() += n; }
                    if ctx.nontrivial { t.nontrivial += 1; t.distinct.insert(ctx.digest()); }
                    if i < 2 {
                        let mut s = case.to_string();
                        if s.len() > 4000 { let mut n = 4000; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); s.push('…'); }
                        let log: Vec<String> = ctx.text.iter().flatten().take(20).map(|l| l.chars().take(200).collect()).collect();
                        t.samples.push(json!({"run_index": i, "seed": seed, "case": s, "log_head": log}));
                    }
                }
                if i % 64 == 0 || o.dump.is_some() { digests.lock().unwrap().insert(i, ctx.digest()); }
                if let Err(v) = outcome {
                    if let Some(k) = known.iter().find(|k| k.class == v.class && v.detail.contains(&k.contains)) {
                        *known_hit.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                    } else {
                        failures.lock().unwrap().push((i, case, v));
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    // Determinism self-check: the same run, again, must give the same event log.
    let mut rechecked = 0u64;
    let mut diverged = vec![];
    if failures.lock().unwrap().is_empty() {
        for (i, d) in digests.lock().unwrap().iter() {
            if start.elapsed().as_secs() > o.cap_s + 30 || rechecked >= 200 { break; }
            let seed = derive_seed(o.seed, id, *i);
            let again = isolated(seed, || {
                let mut ctx = Ctx { hash_seed: seed, thorough: o.thorough, ..Default::default() };
                let _ = p.gen_run(&mut Rng::new(seed), &mut ctx);
                ctx.digest()
            });
            rechecked += 1;
            if again != *d { diverged.push(*i); }
        }
    }
    done.store(true, Ordering::SeqCst);
    if let Some(f) = &o.dump {
        let s: String = digests.lock().unwrap().iter().map(|(i, d)| format!("{i} {d:016x}\n")).collect();
        std::fs::write(f, s).expect("dump");
    }
    let t = totals.into_inner().unwrap();
    let search = start.elapsed().as_secs_f64();
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    if fails.is_empty() && !diverged.is_empty() {
        // Replaying a seed must be exact; if it is not, code under test consulted something
        // the simulator does not own.
        let i = diverged[0];
        let seed = derive_seed(o.seed, id, i);
        let case = p.gen(&mut Rng::new(seed), o.thorough);
        fails.push((i, case, Violation::new("nondeterminism", format!("{} of {rechecked} re-executed runs gave another event log", diverged.len()))));
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, case, v)) = fails.into_iter().next() {
        let seed = derive_seed(o.seed, id, i);
        println!("run {i} (seed {seed:#x}) violates {id}: class={} {}", v.class, v.detail);
        let (min, mv, tries) = if v.class == "nondeterminism" {
            (case.clone(), v, 0)
        } else {
            // The case must survive the trip through its file form.
            match run_value(p, &case, seed, false, o.thorough).0 {
                Some(Err(w)) if w.class == v.class => minimise(p, case.clone(), v, seed, o.thorough, Duration::from_secs(if o.thorough { 120 } else { 20 }), &|c, w, n| {
                    let path = write_replay(o, id, c, w, seed, i, n, &case);
                    println!("minimised in {n} runs: class={} {}", w.class, w.detail);
                    println!("VIOLATION property={id} replay={path}");
                }),
                _ => (case.clone(), v, 0),
            }
        };
        let path = write_replay(o, id, &min, &mv, seed, i, tries, &case);
        println!("minimised in {tries} runs: class={} {}", mv.class, mv.detail);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
        nviol = 1;
    }
    for (k, n) in known_hit.lock().unwrap().iter() { println!("KNOWN-FINDING: property={id} {k} (hit by {n} runs)"); }
    let wall = start.elapsed().as_secs_f64();
    if let Some(e) = &o.evidence {
        let doc = json!({
            "property": id,
            "tier": if o.thorough { "thorough" } else { "quick" },
            "seed": o.seed,
            "level": info.level,
            "coverage": {
                "evaluations": t.runs,
                "distinct_nontrivial": t.distinct.len(),
                "rule": info.rule,
                "samples": t.samples,
                "nontrivial_runs": t.nontrivial,
                "runs_per_hour": (t.runs as f64 / search.max(0.001) * 3600.0) as u64,
                "simulated_steps": t.steps,
                "simulated_step_unit": info.unit,
                "log_events": t.events,
                "faults_injected": t.faults,
                "runs_with_faults": t.faulty_runs,
                "probes": t.probes,
                "determinism": { "runs_reexecuted": rechecked, "diverged": diverged.len() },
                "distinct_measure": "distinct hashes of the complete event log of a run",
                "components": info.components.iter().map(|(a, b)| json!({"component": a, "ran": b})).collect::<Vec<_>>(),
            },
            "assumptions": info.assumptions,
            "wall_s": wall,
            "violations": nviol,
        });
        if let Some(d) = std::path::Path::new(e).parent() { std::fs::create_dir_all(d).ok(); }
        std::fs::write(e, serde_json::to_string_pretty(&doc).unwrap()).expect("evidence");
    }
    println!(
        "SIM property={id} done: {} runs, {} distinct non-trivial, {} steps, {} faults, {:.1}s, {}",
        t.runs, t.distinct.len(), t.steps, t.faults.values().sum::<u64>(), wall, if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

pub fn replay(p: &dyn DynProp, file: &str) -> i32 {
    quiet_panics();
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let hs = doc["hash_seed"].as_u64().unwrap_or(0);
    let thorough = doc["thorough"].as_bool().unwrap_or(false);
    let case = if doc["generate"] == true { p.gen(&mut Rng::new(hs), thorough) } else { doc["case"].clone() };
    let (o, ctx) = run_value(p, &case, hs, true, thorough);
    for l in ctx.text.unwrap_or_default() { println!("  {l}"); }
    match o {
        None => { println!("replay file does not hold a case of this property"); 2 }
        Some(Ok(())) => { println!("replay: property {} held", p.info().id); 0 }
        Some(Err(v)) => {
            println!("class={} {}", v.class, v.detail);
            println!("same_violation_as_recorded={}", v.class == doc["violation"]["class"] && v.detail == doc["violation"]["detail"]);
            println!("VIOLATION property={} replay={file}", p.info().id);
            1
        }
    }
}

/// Command line shared by all simulators.
pub fn main(props: &[&dyn DynProp]) -> ! {
    // anyhow captures a backtrace per error, also for the one `step` makes eagerly.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.info().id == id) else {
        eprintln!("usage: <property> [--seed N] [--tier quick|thorough] [--runs N] [--jobs N] [--evidence F] [--replay F] [--out D] [--dump F]\nproperties: {:?}", props.iter().map(|p| p.info().id).collect::<Vec<_>>());
        std::process::exit(2)
    };
    if let Some(i) = get("--crash-case").and_then(|s| s.parse::<u64>().ok()) {
        let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = get("--tier").is_some_and(|t| t == "thorough");
        println!("{}", json!({"property": id, "verif_seed": seed, "run_index": i, "thorough": thorough, "hash_seed": derive_seed(seed, &id, i),
            "violation": {"class": "crash", "detail": "the process dies"}, "generate": true}));
        std::process::exit(0);
    }
    if let Some(f) = get("--replay") { std::process::exit(replay(*p, &f)); }
    let env = |k: &str| std::env::var(k).ok();
    let thorough = get("--tier").or_else(|| env("VERIF_TIER")).is_some_and(|t| t == "thorough");
    let o = Opts {
        seed: get("--seed").or_else(|| env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        runs: get("--runs").and_then(|s| s.parse().ok()),
        jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
        evidence: get("--evidence"),
        known: get("--known"),
        out: get("--out").unwrap_or_else(|| "replays".into()),
        cap_s: get("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 }),
        journal: get("--journal"),
        dump: get("--dump"),
    };
    std::process::exit(batch(*p, &o))
}
