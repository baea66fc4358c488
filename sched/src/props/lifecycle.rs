//! C22: the state of the terminal, before, while and after there's an event source, and when things fail
use super::*;
use crate::ensure;
use crate::rt;
use crate::term::{self, Input, Script};
use crossterm::event::*;
use serde_json::json;
use termimad::{crossterm, EventSource, EventSourceOptions};

#[derive(Clone, Copy, Debug)]
struct Case { combine: bool, mandate: bool, supports: Option<bool>, enable_fails: bool, stdout_fails: bool, inputs: usize, app: App }
#[derive(Clone, Copy, Debug, PartialEq)]
enum App {
    /// receive all events, quit with the last one, then drop
    Quit,
    /// drop at once, the receiver being kept or not
    Drop(bool),
    /// receive an event, then drop without unblocking
    DropBlocked,
    /// quit then drop, twice
    Twice,
    /// drop from another thread
    DropElsewhere,
}
const APPS: [App; 6] = [App::Quit, App::Drop(false), App::Drop(true), App::DropBlocked, App::Twice, App::DropElsewhere];

fn decode(mut i: u64) -> Case {
    let mut take = |n: u64| { let r = i % n; i /= n; r as usize };
    Case { app: APPS[take(6)], inputs: take(3), combine: take(2) == 1, mandate: take(2) == 1, supports: [Some(true), Some(false), None][take(3)], enable_fails: take(2) == 1, stdout_fails: take(2) == 1 }
}
const N: u64 = 6 * 3 * 2 * 2 * 3 * 2 * 2;

fn scenario(c: Case) -> (crate::explore::Scenario, crate::explore::Check) {
    let inputs: Vec<Input> = (0..c.inputs * if c.app == App::Twice { 2 } else { 1 }).map(|k| Input { at: 0, event: Some(Event::Resize(k as u16, 1)) }).collect();
    let sc = Script { inputs, supports: c.supports, enable_fails: c.enable_fails, stdout_fails: c.stdout_fails, ..Default::default() };
    let scenario = Box::new(move || {
        term::set(sc);
        for _ in 0..if c.app == App::Twice { 2 } else { 1 } {
            rt::log(What::Did("new", 0));
            let r = EventSource::with_options(EventSourceOptions { combine_keys: c.combine, mandate_modifier_for_multiple_keys: c.mandate, ..Default::default() });
            let source = match r { Err(_) => { rt::log(What::Saw("error", 0)); continue } Ok(s) => s };
            rt::log(What::Saw("source", source.supports_multi_key_combinations() as i64));
            rt::log(What::Saw("raw", term::raw() as i64));
            rt::log(What::Saw("flags", term::flags().map_or(-1, |n| n as i64)));
            let rx = source.receiver();
            let mut kept = None;
            match c.app {
                App::Quit | App::Twice => for j in 0..c.inputs { let _ = rx.recv(); rt::log(What::Saw("raw", term::raw() as i64)); source.unblock(j + 1 == c.inputs); },
                App::Drop(false) => drop(rx),
                App::Drop(true) => kept = Some(rx),
                App::DropBlocked => if c.inputs > 0 { let _ = rx.recv(); kept = Some(rx) },
                App::DropElsewhere => {
                    rt::log(What::Did("drop", 0));
                    let _ = std::thread::spawn(move || drop(source)).join();
                    rt::log(What::Did("dropped", term::raw() as i64));
                    continue;
                }
            }
            rt::log(What::Did("drop", 0));
            drop(source);
            rt::log(What::Did("dropped", term::raw() as i64));
            if let Some(rx) = kept { while rx.recv().is_ok() {} }
        }
    });
    let check = Box::new(move |end: &End| {
        for e in end.log { if let What::Panic(m) = &e.what { ensure!(false, "panic", "T{} panicked: {m}", e.tid); } }
        ensure!(!end.livelock, "livelock", "the threads go on forever");
        let fails = c.enable_fails || c.combine && (c.supports.is_none() || c.supports == Some(true) && c.stdout_fails);
        let multi = c.combine && c.supports == Some(true);
        let rounds = if c.app == App::Twice { 2 } else { 1 };
        // the history
        let mut alive = false;
        let mut raw = false;
        let mut dropping = false;
        let (mut made, mut errors) = (0, 0);
        for e in end.log {
            match &e.what {
                What::Raw(b) => {
                    ensure!(*b || dropping || errors + made < rounds && !alive, "raw-off", "the raw mode is disabled while the source is alive");
                    ensure!(*b != raw || !*b, "raw-twice", "the raw mode is enabled twice");
                    raw = *b;
                }
                What::Did("new", _) => dropping = false,
                What::Saw("source", m) => { made += 1; alive = true; ensure!(raw, "raw", "a source is made without raw mode"); ensure!(*m == multi as i64, "multi", "supports_multi_key_combinations is {m}"); }
                What::Saw("error", _) => { errors += 1; ensure!(!raw, "raw-after-failure", "the raw mode is still enabled while the source couldn't be made"); }
                What::Saw("raw", r) => ensure!(*r == 1, "raw", "the raw mode isn't enabled while there's a source"),
                What::Saw("flags", n) => if c.app != App::Twice { ensure!(*n == multi as i64, "flags", "{n} keyboard flags pushed, combining being {multi}") },
                What::Did("drop", _) => { alive = false; dropping = true; }
                What::Did("dropped", r) => { ensure!(*r == 0 && !raw, "raw-after-drop", "the raw mode is still enabled after drop"); }
                What::ReadCall | What::Read(_) => ensure!(raw || !alive, "raw", "reading without raw mode"),
                _ => {}
            }
        }
        ensure!(made == if fails { 0 } else { rounds } && errors == if fails { rounds } else { 0 } || !end.done[0], "new", "{made} sources made and {errors} errors, while {} were expected", if fails { "errors" } else { "sources" });
        if fails {
            ensure!(end.done.len() == 1, "thread", "a thread was started while the source couldn't be made");
            ensure!(!term::raw(), "raw-after-failure", "the raw mode is still enabled while the source couldn't be made");
            if !c.stdout_fails { ensure!(term::flags() == Ok(0), "flags-after-failure", "flags: {:?}", term::flags()); }
            return Ok(1);
        }
        // the thread ends at the first event after the drop, or when told to quit, and then restores the keyboard
        let ended = c.inputs > 0;
        let may_block = matches!(c.app, App::Drop(true)) && !ended;
        ensure!(end.done[0] || may_block, "deadlock", "the application is blocked forever");
        if end.done[0] { ensure!(!term::raw(), "raw-after-drop", "the raw mode is enabled at the end"); }
        if ended { ensure!(end.done.iter().all(|d| *d), "not-ended", "the thread of the source isn't ended"); }
        if !c.stdout_fails {
            match term::flags() {
                Err(e) => ensure!(false, "flags", "{e}"),
                Ok(n) if ended => ensure!(n == 0, "flags-after-end", "{n} keyboard flags are still pushed at the end"),
                Ok(n) => ensure!(n >= 0 && n <= rounds, "flags", "{n} keyboard flags pushed"),
            }
        }
        Ok((c.inputs > 0) as u64)
    });
    (scenario, check)
}

pub fn families(quick: bool) -> Vec<Family> {
    let bound = if quick { 2 } else { 3 };
    vec![Family {
        name: "lifecycles", bounds: format!("{APPS:?}, 0 to 2 events, all options, terminals (supporting the keyboard flags, not supporting them, not answering), failures of the raw mode or of stdout; all schedules with at most {bound} delays"), n: N, per: 1, bound, horizon: u64::MAX / 4,
        describe: Box::new(|i| json!(format!("{:?}", decode(i)))), make: Box::new(|i| scenario(decode(i))),
    }]
}
