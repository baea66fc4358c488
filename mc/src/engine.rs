//! Exhaustive exploration engine: indexed families of cases (bounded enumeration
//! of documents / values / configurations) and level-synchronous breadth-first
//! search over operation sequences, both on all cores, both deterministic in what
//! they cover, both reporting the smallest counterexample first.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Viol {
    /// class of the violation; a known finding is identified by it and by its case
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($fmt:tt)*) => { if !($c) { return $crate::engine::viol($sig, format!($($fmt)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static GUARDED: Cell<bool> = Cell::new(false);
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
        } else {
            default(info);
        }
    }));
}
/// run code under test: a panic becomes a violation
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Viol> {
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    r.map_err(|_| {
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        let file = p.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        let file = file.split(':').next().unwrap_or("").to_string();
        Viol { sig: format!("panic:{file}"), msg: format!("panicked at {p}") }
    })
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Counting of distinct observed outcomes (hash bitmap: a lower bound)
pub struct Outcomes(Vec<AtomicU64>);
const OBITS: usize = 1 << 24;
impl Outcomes {
    fn new() -> Self { Outcomes((0..OBITS / 64).map(|_| AtomicU64::new(0)).collect()) }
    pub fn see(&self, h: u64) {
        let b = (h as usize) % OBITS;
        let m = 1u64 << (b % 64);
        let w = &self.0[b / 64];
        if w.load(Relaxed) & m == 0 { w.fetch_or(m, Relaxed); }
    }
    fn count(&self) -> u64 { self.0.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum() }
}

pub struct Found { pub family: String, pub order: u64, pub v: Viol, pub case: Value }

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub start: Instant,
    pub deadline: Instant,
    pub threads: usize,
    pub known: Vec<Known>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub nontrivial: AtomicU64,
    pub outcomes: Outcomes,
    pub found: Mutex<BTreeMap<String, Found>>, // by sig
    pub known_hits: Mutex<BTreeMap<usize, (u64, Value)>>,
    pub samples: Mutex<Vec<Value>>,
    pub families: Mutex<Vec<Value>>,
    pub capped: AtomicBool,
    pub replay_only: Option<Value>,
    pub max_case: Duration,
    /// only for the development (mutation testing): stop at the first violation, look at one case out of n
    pub fast: bool,
    pub sample: u64,
    slots: Vec<Slot>,
}
#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub sig: String, pub case_contains: Vec<String>, pub what: String }

struct Slot { started_ms: AtomicU64, idx: AtomicU64, fam: AtomicUsize }

impl Ctx {
    pub fn new(property: &str, tier: Tier, cap: Duration, known: Vec<Known>) -> Self {
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        let start = Instant::now();
        Ctx {
            property: property.into(), tier, start, deadline: start + cap, threads, known,
            states: 0.into(), transitions: 0.into(), traces: 0.into(), nontrivial: 0.into(),
            outcomes: Outcomes::new(), found: Default::default(), known_hits: Default::default(),
            samples: Default::default(), families: Default::default(), capped: false.into(),
            replay_only: None, max_case: Duration::from_secs(20),
            fast: std::env::var_os("MC_FAST").is_some(), sample: std::env::var("MC_SAMPLE").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            slots: (0..threads).map(|_| Slot { started_ms: 0.into(), idx: 0.into(), fam: 0.into() }).collect(),
        }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// pick by tier
    pub fn by<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    fn now_ms(&self) -> u64 { self.start.elapsed().as_millis() as u64 + 1 }
    pub fn record(&self, family: &str, order: u64, v: Viol, case: Value) {
        let cs = case.to_string();
        for (i, k) in self.known.iter().enumerate() {
            if k.property == self.property && v.sig.starts_with(&k.sig) && k.case_contains.iter().all(|c| cs.contains(c.as_str()) || v.msg.contains(c.as_str())) {
                let mut kh = self.known_hits.lock().unwrap();
                let e = kh.entry(i).or_insert((0, case));
                e.0 += 1;
                return;
            }
        }
        if self.fast { println!("FAST {} {family} [{}] {}", self.property, v.sig, v.msg.chars().take(200).collect::<String>()); std::process::exit(1); }
        let mut f = self.found.lock().unwrap();
        match f.get(&v.sig) {
            Some(o) if o.order <= order => {}
            _ => { f.insert(v.sig.clone(), Found { family: family.into(), order, v, case }); }
        }
    }
    pub fn has_found(&self) -> bool { !self.found.lock().unwrap().is_empty() }
    pub fn out_of_time(&self) -> bool { Instant::now() >= self.deadline }

    /// Explore the indexed family completely.
    pub fn family<F: Family>(&self, fam: &F) {
        if let Some(r) = &self.replay_only {
            if r["family"].as_str() == Some(&fam.name()) && r["index"].is_u64() {
                let i = r["index"].as_u64().unwrap();
                println!("replay {} index {}: {}", fam.name(), i, fam.describe(i));
                let mut l = Local::new(self);
                let r = guard(|| fam.check(i, &mut l)).and_then(|r| r);
                match r {
                    Ok(()) => println!("replay: property holds on this case"),
                    Err(v) => { println!("replay: {} {}", v.sig, v.msg); self.record(&fam.name(), i, v, fam.describe(i)); }
                }
            }
            return;
        }
        let n = fam.len();
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let finished = AtomicBool::new(false);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 256);
        let tr0 = self.traces.load(Relaxed);
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for t in 0..self.threads {
                let (next, done, stop_at) = (&next, &done, &stop_at);
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let slot = &self.slots[t];
                    let mut l = Local::new(self);
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || a > stop_at.load(Relaxed) { break; }
                        if self.out_of_time() { self.capped.store(true, Relaxed); break; }
                        for i in a..(a + chunk).min(n) {
                            if self.sample > 1 && (i.wrapping_mul(0x9E3779B97F4A7C15) >> 33) % self.sample != 0 { continue; }
                            slot.idx.store(i, Relaxed);
                            slot.started_ms.store(self.now_ms(), Relaxed);
                            let r = guard(|| fam.check(i, &mut l)).and_then(|r| r);
                            if let Err(v) = r {
                                let before = self.found.lock().unwrap().len();
                                self.record(&fam.name(), i, v, json!({"family": fam.name(), "index": i, "case": fam.describe(i)}));
                                if self.found.lock().unwrap().len() > before || self.has_found() {
                                    stop_at.fetch_min(i + 50_000, Relaxed);
                                }
                            }
                            done.fetch_add(1, Relaxed);
                        }
                        slot.started_ms.store(0, Relaxed);
                    }
                    slot.started_ms.store(0, Relaxed);
                }).unwrap());
            }
            // watchdog: a case which doesn't end is a violation as well
            let (finished, this) = (&finished, self);
            sc.spawn(move || {
                while !finished.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for s in &this.slots {
                        let st = s.started_ms.load(Relaxed);
                        if st != 0 && this.now_ms().saturating_sub(st) > this.max_case.as_millis() as u64 {
                            let i = s.idx.load(Relaxed);
                            this.record(&fam.name(), i, Viol { sig: "hang".into(), msg: format!("no answer after {:?}", this.max_case) },
                                json!({"family": fam.name(), "index": i, "case": fam.describe(i)}));
                            this.finish_and_exit();
                        }
                        if rss_mb() > 20_000 {
                            let i = s.idx.load(Relaxed);
                            this.record(&fam.name(), i, Viol { sig: "memory".into(), msg: "memory use exploded".into() },
                                json!({"family": fam.name(), "index": i, "case": fam.describe(i)}));
                            this.finish_and_exit();
                        }
                    }
                }
            });
            for h in hs { let _ = h.join(); }
            finished.store(true, Relaxed);
        });
        let d = done.load(Relaxed);
        self.states.fetch_add(d, Relaxed);
        self.transitions.fetch_add(fam.transitions(d), Relaxed);
        // a few samples: the first, one in the middle, the last
        let mut s = self.samples.lock().unwrap();
        for i in [n / 3, n.saturating_sub(1)] {
            if n > 0 && s.len() < 24 { s.push(json!({"family": fam.name(), "index": i, "case": fam.describe(i)})); }
        }
        self.families.lock().unwrap().push(json!({
            "family": fam.name(), "bounds": fam.bounds(), "cases": n, "explored": d,
            "exhaustive": d == n, "executions": self.traces.load(Relaxed) - tr0, "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }

    pub fn finish_and_exit(&self) -> ! {
        let code = crate::report::finish(self);
        std::process::exit(code)
    }
    pub fn outcome_count(&self) -> u64 { self.outcomes.count() }
}

pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 >> 20).unwrap_or(0)
}

/// per-worker scratch
pub struct Local<'c> { pub ctx: &'c Ctx, traces: u64, nontrivial: u64 }
impl<'c> Local<'c> {
    pub fn new(ctx: &'c Ctx) -> Self { Local { ctx, traces: 0, nontrivial: 0 } }
    /// one execution of the real code was compared with the oracle
    pub fn trace(&mut self, outcome: u64) {
        self.traces += 1;
        self.ctx.outcomes.see(outcome);
    }
    pub fn nontrivial(&mut self) { self.nontrivial += 1; }
}
impl Drop for Local<'_> {
    fn drop(&mut self) {
        self.ctx.traces.fetch_add(self.traces, Relaxed);
        self.ctx.nontrivial.fetch_add(self.nontrivial, Relaxed);
    }
}

pub trait Family: Sync {
    fn name(&self) -> String;
    fn bounds(&self) -> String;
    fn len(&self) -> u64;
    fn describe(&self, i: u64) -> Value;
    fn check(&self, i: u64, l: &mut Local) -> Res;
    /// number of construction edges between the explored cases
    fn transitions(&self, explored: u64) -> u64 { explored.saturating_sub(1) }
}

/// A family given by closures
pub struct Fam<D, C> { pub name: String, pub bounds: String, pub n: u64, pub d: D, pub c: C }
impl<D: Fn(u64) -> Value + Sync, C: Fn(u64, &mut Local) -> Res + Sync> Family for Fam<D, C> {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { self.bounds.clone() }
    fn len(&self) -> u64 { self.n }
    fn describe(&self, i: u64) -> Value { (self.d)(i) }
    fn check(&self, i: u64, l: &mut Local) -> Res { (self.c)(i, l) }
}

/// all sequences over an alphabet of size `a` with min..=max elements, shortest first
#[derive(Clone, Copy)]
pub struct Seqs { pub a: u64, pub min: u32, pub max: u32 }
impl Seqs {
    pub fn len(&self) -> u64 { (self.min..=self.max).map(|l| self.a.pow(l)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut l = self.min;
        while i >= self.a.pow(l) { i -= self.a.pow(l); l += 1; }
        let mut v = vec![0; l as usize];
        for k in (0..l as usize).rev() { v[k] = (i % self.a) as usize; i /= self.a; }
        v
    }
}
/// mixed radix decoding
pub struct Mixed(pub u64);
impl Mixed {
    pub fn take(&mut self, n: usize) -> usize { let r = self.0 % n as u64; self.0 /= n as u64; r as usize }
    pub fn take64(&mut self, n: u64) -> u64 { let r = self.0 % n; self.0 /= n; r }
}

/// Breadth-first explicit-state exploration: every transition calls the real code.
pub trait Model: Sync {
    type S: Send + Sync;
    type Op: Clone + Send + Sync + std::fmt::Debug;
    fn name(&self) -> String;
    fn bounds(&self) -> String;
    fn inits(&self) -> Vec<(String, Self::S)>;
    fn ops(&self, s: &Self::S) -> Vec<Self::Op>;
    /// must not change `s`; builds the successor and checks the property on the transition
    fn step(&self, s: &Self::S, op: &Self::Op, l: &mut Local) -> Result<Self::S, Viol>;
    /// canonical encoding of the state; None = don't expand (outside of the bound)
    fn key(&self, s: &Self::S) -> Option<u128>;
    fn check_init(&self, _s: &Self::S, _l: &mut Local) -> Res { Ok(()) }
    fn max_depth(&self) -> usize;
    fn max_states(&self) -> usize { 3_000_000 }
}

struct Node { parent: u32, op: String }

pub fn key128<T: Hash + ?Sized>(t: &T) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    0x9e3779b97f4a7c15u64.hash(&mut a); t.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut b); 0x51u8.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

impl Ctx {
    pub fn bfs<M: Model>(&self, m: &M) {
        let t0 = Instant::now();
        if let Some(r) = &self.replay_only {
            if r["family"].as_str() == Some(&m.name()) && r["history"].is_array() {
                let hist: Vec<String> = r["history"].as_array().unwrap().iter().map(|v| v.as_str().unwrap_or("").to_string()).collect();
                let mut l = Local::new(self);
                for (name, s0) in m.inits() {
                    if name != hist[0] { continue; }
                    println!("replay {}: from {}", m.name(), name);
                    if let Err(v) = guard(|| m.check_init(&s0, &mut l)).and_then(|r| r) {
                        println!("replay: {} {}", v.sig, v.msg);
                        self.record(&m.name(), 0, v, r.clone());
                        return;
                    }
                    let mut s = s0;
                    for h in &hist[1..] {
                        let Some(op) = m.ops(&s).into_iter().find(|o| format!("{o:?}") == *h) else { println!("replay: operation {h} isn't enabled"); return; };
                        println!("replay: {h}");
                        match guard(|| m.step(&s, &op, &mut l)).and_then(|r| r) {
                            Ok(n) => s = n,
                            Err(v) => { println!("replay: {} {}", v.sig, v.msg); self.record(&m.name(), 0, v, r.clone()); return; }
                        }
                    }
                    println!("replay: property holds on this history");
                }
            }
            return;
        }
        let tr0 = self.traces.load(Relaxed);
        let seen: Vec<Mutex<HashSet<u128>>> = (0..256).map(|_| Mutex::new(HashSet::new())).collect();
        let insert = |k: u128| seen[(k & 255) as usize].lock().unwrap().insert(k);
        let mut nodes: Vec<Node> = Vec::new();
        let mut frontier: Vec<(u32, M::S)> = Vec::new();
        let transitions = AtomicU64::new(0);
        let history = |nodes: &Vec<Node>, mut i: u32| -> Vec<String> {
            let mut v = Vec::new();
            while i != u32::MAX { v.push(nodes[i as usize].op.clone()); i = nodes[i as usize].parent; }
            v.reverse(); v
        };
        let mut l0 = Local::new(self);
        for (n, s) in m.inits() {
            if let Err(v) = guard(|| m.check_init(&s, &mut l0)).and_then(|r| r) {
                self.record(&m.name(), 0, v, json!({"family": m.name(), "history": [n]}));
                continue;
            }
            if let Some(k) = m.key(&s) {
                if insert(k) {
                    nodes.push(Node { parent: u32::MAX, op: n });
                    frontier.push((nodes.len() as u32 - 1, s));
                }
            }
        }
        let mut depth = 0;
        let mut complete = false;
        let mut capped = false;
        let mut fully_covered_depth = 0;
        while depth < m.max_depth() {
            if frontier.is_empty() { complete = true; break; }
            if nodes.len() > m.max_states() || self.out_of_time() { capped = true; break; }
            let next = AtomicUsize::new(0);
            let fr = &frontier;
            let finished = AtomicBool::new(false);
            let timeout = AtomicBool::new(false);
            let results: Vec<Vec<(u32, String, Result<M::S, Viol>)>> = std::thread::scope(|sc| {
                let mut hs = Vec::new();
                for t in 0..self.threads {
                    let (next, insert, transitions, timeout) = (&next, &insert, &transitions, &timeout);
                    hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let mut out = Vec::new();
                        let mut l = Local::new(self);
                        let slot = &self.slots[t];
                        loop {
                            let a = next.fetch_add(8, Relaxed);
                            if a >= fr.len() { break; }
                            if self.out_of_time() { timeout.store(true, Relaxed); break; }
                            for i in a..(a + 8).min(fr.len()) {
                                let (id, s) = &fr[i];
                                for (oi, op) in m.ops(s).into_iter().enumerate() {
                                    slot.idx.store(i as u64, Relaxed);
                                    slot.fam.store(oi, Relaxed);
                                    slot.started_ms.store(self.now_ms(), Relaxed);
                                    transitions.fetch_add(1, Relaxed);
                                    match guard(|| m.step(s, &op, &mut l)).and_then(|r| r) {
                                        Ok(n) => {
                                            if let Some(k) = m.key(&n) {
                                                if insert(k) { out.push((*id, format!("{op:?}"), Ok(n))); }
                                            }
                                        }
                                        Err(v) => out.push((*id, format!("{op:?}"), Err(v))),
                                    }
                                }
                            }
                        }
                        slot.started_ms.store(0, Relaxed);
                        out
                    }).unwrap());
                }
                let (finished, this, nodes_ref) = (&finished, self, &nodes);
                let hist = &history;
                sc.spawn(move || {
                    while !finished.load(Relaxed) {
                        std::thread::sleep(Duration::from_millis(20));
                        for s in &this.slots {
                            let st = s.started_ms.load(Relaxed);
                            let hang = st != 0 && this.now_ms().saturating_sub(st) > this.max_case.as_millis() as u64;
                            if hang || (st != 0 && rss_mb() > 24_000) {
                                let i = s.idx.load(Relaxed) as usize;
                                let (id, state) = &fr[i];
                                let mut h = hist(nodes_ref, *id);
                                let ops = m.ops(state);
                                if let Some(op) = ops.get(s.fam.load(Relaxed)) { h.push(format!("{op:?}")); }
                                this.record(&m.name(), 0, Viol { sig: if hang { "hang".into() } else { "memory".into() }, msg: format!("no answer after {:?}", this.max_case) },
                                    json!({"family": m.name(), "history": h}));
                                this.finish_and_exit();
                            }
                        }
                    }
                });
                let r = hs.into_iter().map(|h| h.join().unwrap()).collect();
                finished.store(true, Relaxed);
                r
            });
            let mut nf = Vec::new();
            for (pid, op, r) in results.into_iter().flatten() {
                match r {
                    Ok(s) => {
                        nodes.push(Node { parent: pid, op });
                        nf.push((nodes.len() as u32 - 1, s));
                    }
                    Err(v) => {
                        let mut h = history(&nodes, pid);
                        h.push(op);
                        self.record(&m.name(), h.len() as u64, v, json!({"family": m.name(), "history": h}));
                    }
                }
            }
            frontier = nf;
            depth += 1;
            if timeout.load(Relaxed) { capped = true; break; }
            fully_covered_depth = depth;
            if self.has_found() { break; }
        }
        if frontier.is_empty() { complete = true; }
        if capped { self.capped.store(true, Relaxed); }
        self.states.fetch_add(nodes.len() as u64, Relaxed);
        self.transitions.fetch_add(transitions.load(Relaxed), Relaxed);
        let mut s = self.samples.lock().unwrap();
        for i in [nodes.len() / 2, nodes.len().saturating_sub(1)] {
            if !nodes.is_empty() && s.len() < 24 { s.push(json!({"family": m.name(), "history": history(&nodes, i as u32)})); }
        }
        self.families.lock().unwrap().push(json!({
            "family": m.name(), "bounds": m.bounds(), "states": nodes.len(), "transitions": transitions.load(Relaxed),
            "depth_fully_covered": fully_covered_depth, "closed": complete, "capped": capped,
            "executions": self.traces.load(Relaxed) - tr0, "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }
}
