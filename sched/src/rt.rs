//! Controlled scheduler: runs the threads of a (forked) process one at a time, on a
//! virtual clock, following a prescribed sequence of choices.
//!
//! Threads are the real ones of the code under test. What makes them wait or go on
//! is interposed at the level of libc (pthread_create, pthread_join, futex system
//! calls, clocks, sleeps, yields), so it doesn't matter which primitives of std,
//! crossbeam or parking_lot the code uses. Operations on crossbeam channels and on
//! the terminal are additional scheduling points.
use std::arch::asm;
use std::cell::Cell;
use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const MAX_POINTS: usize = 20000;
pub const MAX_OPTS: usize = 10;
const MAX_THREADS: usize = 160;
const MSG: usize = 1 << 15;
/// beginning of the virtual time, in ns of the monotonic clock
const EPOCH: u64 = 1_000_000_000_000;
pub const MS: u64 = 1_000_000;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point { pub n: u8, pub chosen: u8, pub cost: [u8; MAX_OPTS], pub label: [i8; MAX_OPTS] }
#[repr(C)]
pub struct Shm {
    pub prefix_len: u32,
    pub prefix: [u8; MAX_POINTS],
    pub points: u32, // branching points
    pub point: [Point; MAX_POINTS],
    pub steps: u32, // all scheduling steps
    pub states: u32,
    pub state: [u64; MAX_POINTS],
    /// 0 running, 1 ok, 2 violation, 3 internal error
    pub status: u32,
    pub outcome: u64,
    pub nontrivial: u32,
    pub executions: u32,
    pub sig_len: u32,
    pub sig: [u8; 128],
    pub msg_len: u32,
    pub msg: [u8; MSG],
}
impl Shm {
    pub fn map() -> &'static mut Shm {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            &mut *(p as *mut Shm)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Entry { pub tid: usize, pub time: u64, pub what: What }
/// what's observed of an execution, in order
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum What {
    /// the terminal is asked for an event
    ReadCall,
    /// the nth input is given
    Read(usize),
    ReadErr(usize),
    Raw(bool),
    RawErr,
    Flags(bool),
    Panic(String),
    Spawned(usize),
    Ended,
    /// what the scenario tells
    Did(&'static str, i64),
    Saw(&'static str, i64),
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St { Run, Futex(usize), Pred, Join(usize), Done }
struct Tcb { st: St, deadline: Option<u64>, woken: bool, pred: Option<Box<dyn FnMut() -> bool>>, pthread: libc::pthread_t, spins: u32 }
struct Rt {
    shm: *mut Shm,
    t: Vec<Tcb>,
    cur: usize,
    now: u64,
    horizon: u64,
    same: u32,
    log: Vec<Entry>,
    loghash: u64,
    end: Option<Box<dyn FnOnce(&End) -> Result<u64, (String, String)>>>,
}
pub struct End<'a> {
    pub log: &'a [Entry],
    /// for each thread, whether it's ended
    pub done: Vec<bool>,
    pub livelock: bool,
    pub now: u64,
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut RT: *mut Rt = std::ptr::null_mut();
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAX_THREADS] = [ZERO; MAX_THREADS];
thread_local! { static ME: Cell<i32> = const { Cell::new(-1) }; }

fn rt() -> &'static mut Rt { unsafe { &mut *RT } }
fn controlled() -> bool { ACTIVE.load(Relaxed) && ME.with(|m| m.get()) >= 0 }
pub fn me() -> usize { ME.with(|m| m.get()).max(0) as usize }
pub fn now() -> u64 { rt().now }

unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) { *libc::__errno_location() = -r as c_int; -1 } else { r }
}
unsafe fn errno(e: c_int) -> c_long { *libc::__errno_location() = e; -1 }

fn wait_go(t: usize) {
    let go = &GO[t];
    loop {
        if go.swap(0, AcqRel) == 1 { return; }
        unsafe { raw(libc::SYS_futex, go as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, 0, 0, 0, 0); }
    }
}
fn give_go(t: usize) {
    let go = &GO[t];
    go.store(1, Release);
    unsafe { raw(libc::SYS_futex, go as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, 1, 0, 0, 0); }
}

fn mix(h: u64, x: u64) -> u64 { (h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95) }
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn log(what: What) {
    if !ACTIVE.load(Relaxed) { return; }
    let r = rt();
    let tid = me();
    r.loghash = mix(r.loghash, hash(&(tid, &what)));
    r.same = 0;
    r.log.push(Entry { tid, time: r.now, what });
}
/// the entries logged since the beginning (to be used by the running thread only)
pub fn entries() -> &'static [Entry] { &rt().log }

impl Rt {
    fn enabled(&mut self, t: usize) -> bool {
        let now = self.now;
        let expired = self.t[t].deadline.is_some_and(|d| d <= now);
        match self.t[t].st {
            St::Run => true,
            St::Done => false,
            St::Futex(_) => self.t[t].woken || expired,
            St::Join(o) => self.t[o].st == St::Done,
            St::Pred => expired || {
                let mut p = self.t[t].pred.take().unwrap();
                let ok = p();
                self.t[t].pred = Some(p);
                ok
            },
        }
    }
    /// choose who goes on. `cur` has its state set.
    fn schedule(&mut self, cur: usize) {
        if self.t[cur].st != St::Run { self.t[cur].spins = 0; }
        let shm = unsafe { &mut *self.shm };
        loop {
            shm.steps += 1;
            if shm.steps as usize >= MAX_POINTS { finish(true); }
            // (option, cost): threads are >= 0, the passing of time is -1.
            // Not following the default scheduler (go on, else the first thread which can) costs 1
            let mut opts: [(i8, u8); MAX_OPTS] = [(0, 0); MAX_OPTS];
            let mut n = 0;
            let cur_ok = self.enabled(cur);
            self.same = if cur_ok { self.same + 1 } else { 0 };
            // a thread which goes on without doing anything visible lets others go
            let tired = self.same > 60;
            if cur_ok && !tired { opts[n] = (cur as i8, 0); n += 1; }
            for t in 0..self.t.len() {
                if t != cur && n < MAX_OPTS - 1 && self.enabled(t) { opts[n] = (t as i8, (n > 0) as u8); n += 1; }
            }
            let mut next: Option<u64> = None;
            for t in 0..self.t.len() {
                if let (St::Futex(_) | St::Pred, Some(d)) = (self.t[t].st, self.t[t].deadline) {
                    if d > self.now && !self.enabled(t) { next = Some(next.map_or(d, |x| x.min(d))); }
                }
            }
            if let Some(d) = next {
                if d <= self.horizon { opts[n] = (-1, (n > 0) as u8); n += 1; }
            }
            if n == 0 && cur_ok { opts[0] = (cur as i8, 0); n = 1; } // nobody else
            if n == 0 { finish(false); }
            if (shm.states as usize) < MAX_POINTS {
                let mut h = mix(self.loghash, self.now);
                for t in &self.t { h = mix(h, match t.st { St::Run => 1, St::Futex(_) => 2 + t.woken as u64, St::Pred => 4, St::Join(_) => 5, St::Done => 6 }); }
                shm.state[shm.states as usize] = mix(h, cur as u64);
                shm.states += 1;
            }
            let mut k = 0;
            if n > 1 {
                let p = shm.points as usize;
                if p >= MAX_POINTS { finish(true); }
                if p < shm.prefix_len as usize { k = shm.prefix[p] as usize; }
                if k >= n { fail("internal", "the execution diverges from its prefix", 3); }
                let mut pt = Point { n: n as u8, chosen: k as u8, cost: [0; MAX_OPTS], label: [0; MAX_OPTS] };
                for i in 0..n { pt.cost[i] = opts[i].1; pt.label[i] = opts[i].0; }
                shm.point[p] = pt;
                shm.points += 1;
            }
            let (o, _) = opts[k];
            if o < 0 { self.now = next.unwrap(); continue; }
            let o = o as usize;
            if o != cur { self.same = 0; }
            self.cur = o;
            if o != cur {
                give_go(o);
                if self.t[cur].st != St::Done { wait_go(cur); }
            }
            return;
        }
    }
}
fn fail(sig: &str, msg: &str, status: u32) -> ! {
    let shm = unsafe { &mut *rt().shm };
    let s = &sig.as_bytes()[..sig.len().min(128)];
    shm.sig[..s.len()].copy_from_slice(s);
    shm.sig_len = s.len() as u32;
    let m = &msg.as_bytes()[..msg.len().min(MSG)];
    shm.msg[..m.len()].copy_from_slice(m);
    shm.msg_len = m.len() as u32;
    shm.status = status;
    exit()
}
fn exit() -> ! {
    unsafe { raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0); }
    unreachable!()
}
fn finish(livelock: bool) -> ! {
    let r = rt();
    let end = End { log: &r.log, done: r.t.iter().map(|t| t.st == St::Done).collect(), livelock, now: r.now };
    ACTIVE.store(false, Relaxed);
    let f = r.end.take();
    let res = match f { Some(f) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&end))).unwrap_or_else(|_| Err(("internal".into(), "the checker panicked".into()))), None => exit() };
    let shm = unsafe { &mut *r.shm };
    match res {
        Ok(n) => { shm.nontrivial = n as u32; shm.outcome = r.loghash; shm.status = 1; exit() }
        Err((sig, msg)) => {
            let lines: Vec<String> = r.log.iter().map(|e| format!("    {:>6.1}ms T{} {:?}", e.time as f64 / MS as f64, e.tid, e.what)).collect();
            let st: Vec<String> = r.t.iter().enumerate().map(|(i, t)| format!("T{i} {:?}", t.st)).collect();
            fail(&sig, &format!("{msg}\n  history:\n{}\n  threads at the end: {}", lines.join("\n"), st.join(", ")), if sig == "internal" { 3 } else { 2 })
        }
    }
}

/// Run a scenario in this (just forked) process. Never returns.
pub fn run(shm: &mut Shm, horizon: u64, scenario: Box<dyn FnOnce()>, end: Box<dyn FnOnce(&End) -> Result<u64, (String, String)>>) -> ! {
    let r = Box::new(Rt { shm, t: vec![new_tcb(unsafe { libc::pthread_self() })], cur: 0, now: 0, horizon, same: 0, log: Vec::new(), loghash: 0, end: Some(end) });
    unsafe { RT = Box::into_raw(r); }
    ME.with(|m| m.set(0));
    ACTIVE.store(true, Release);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(scenario));
    log(What::Ended);
    let r = rt();
    r.t[0].st = St::Done;
    r.schedule(0);
    wait_go(0); // never
    unreachable!()
}
fn new_tcb(pthread: libc::pthread_t) -> Tcb { Tcb { st: St::Run, deadline: None, woken: false, pred: None, pthread, spins: 0 } }

/// a scheduling point
pub fn point() {
    if !controlled() { return; }
    let r = rt();
    r.schedule(r.cur);
}
/// wait until the predicate holds or the time (since the beginning) is reached
pub fn wait(deadline: Option<u64>, pred: Box<dyn FnMut() -> bool>) {
    let r = rt();
    let c = r.cur;
    r.t[c].st = St::Pred;
    r.t[c].pred = Some(pred);
    r.t[c].deadline = deadline;
    r.schedule(c);
    let t = &mut rt().t[c];
    t.st = St::Run;
    t.pred = None;
    t.deadline = None;
}
pub fn sleep(ns: u64) { let d = now() + ns; wait(Some(d), Box::new(|| false)); }

// ------------------------------------------------------------ interposition

struct Start { f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void, tid: usize }
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    ME.with(|m| m.set(s.tid as i32));
    wait_go(s.tid);
    let res = (s.f)(s.arg);
    log(What::Ended);
    ME.with(|m| m.set(-1)); // destructors of thread locals aren't controlled
    let r = rt();
    r.t[s.tid].st = St::Done;
    r.schedule(s.tid);
    res
}
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle]
unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let real: Create = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    if !controlled() { return real(th, attr, f, arg); }
    let r = rt();
    let tid = r.t.len();
    if tid >= MAX_THREADS { fail("internal", "too many threads", 3); }
    let s = Box::into_raw(Box::new(Start { f, arg, tid }));
    r.t.push(new_tcb(0));
    let e = real(th, attr, trampoline, s as *mut c_void);
    if e != 0 { fail("internal", "no thread", 3); }
    r.t[tid].pthread = *th;
    log(What::Spawned(tid));
    point();
    0
}
#[no_mangle]
unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
    if controlled() {
        let r = rt();
        if let Some(o) = r.t.iter().position(|t| t.pthread == th) {
            let c = r.cur;
            r.t[c].st = St::Join(o);
            r.schedule(c);
            rt().t[c].st = St::Run;
        }
    }
    real(th, ret)
}
#[no_mangle]
unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && controlled() { return futex(a, b as c_int, c as u32, d, f as u32); }
    ret(raw(n, a, b, c, d, e, f))
}
unsafe fn futex(addr: c_long, op: c_int, val: c_uint32, timeout: c_long, _mask: u32) -> c_long {
    let r = rt();
    match op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
        cmd @ (libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val { return errno(libc::EAGAIN); }
            let deadline = if timeout == 0 { None } else {
                let ts = &*(timeout as *const libc::timespec);
                let ns = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                Some(if cmd == libc::FUTEX_WAIT { r.now.saturating_add(ns) } else { ns.saturating_sub(EPOCH) })
            };
            let c = r.cur;
            r.t[c].st = St::Futex(addr as usize);
            r.t[c].deadline = deadline;
            r.t[c].woken = false;
            r.schedule(c);
            let t = &mut rt().t[c];
            let woken = t.woken;
            t.st = St::Run;
            t.deadline = None;
            t.woken = false;
            if woken { 0 } else { errno(libc::ETIMEDOUT) }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            for t in &mut r.t {
                if n < val as c_long && t.st == St::Futex(addr as usize) && !t.woken { t.woken = true; n += 1; }
            }
            n
        }
        _ => fail("internal", "unsupported futex operation", 3),
    }
}
#[allow(non_camel_case_types)]
type c_uint32 = u32;
#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if ACTIVE.load(Relaxed) {
        let t = rt().now + EPOCH;
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clock as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if controlled() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = if flags & libc::TIMER_ABSTIME != 0 { ns.saturating_sub(EPOCH) } else { now() + ns };
        wait(Some(d), Box::new(|| false));
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, clock as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0)) as c_int
}
#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    let e = clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem);
    if e == 0 { 0 } else { errno(e) as c_int }
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> c_int {
    if controlled() {
        // spinning is useless while nobody else runs
        let r = rt();
        let c = r.cur;
        r.t[c].spins += 1;
        if r.t[c].spins > 12 { r.t[c].spins = 0; r.same += 100; point(); }
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
