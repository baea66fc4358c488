//! C19: delivery of events and escape sequences, schedules of the application
use super::*;
use crate::ensure;
use crate::rt::{self, MS};
use crate::term::{self, Input, Script};
use crossterm::event::*;
use serde_json::json;
use std::sync::atomic::Ordering::*;
use std::thread;
use termimad::{crossterm, EventSource, EventSourceOptions};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In { Key, Ctrl, Start, End, Move, Resize, Fail }
const ALPHABET: [In; 7] = [In::Key, In::Start, In::End, In::Ctrl, In::Move, In::Fail, In::Resize];

pub fn key(c: char, m: KeyModifiers) -> Event { Event::Key(KeyEvent::new(KeyCode::Char(c), m)) }
/// the nth input of the script: each one can be recognized
fn event(k: usize, i: In) -> Option<Event> {
    let c = (b'a' + k as u8 % 26) as char;
    Some(match i {
        In::Key => key(c, KeyModifiers::NONE),
        In::Ctrl => key(c, KeyModifiers::CONTROL),
        In::Start => key('_', KeyModifiers::ALT),
        In::End => key('\\', KeyModifiers::ALT),
        In::Move => Event::Mouse(MouseEvent { kind: MouseEventKind::Moved, column: k as u16, row: 0, modifiers: KeyModifiers::NONE }),
        In::Resize => Event::Resize(k as u16, 7),
        In::Fail => return None,
    })
}
fn script(ins: &[In], gap: u64) -> Script {
    Script { inputs: ins.iter().enumerate().map(|(k, i)| Input { at: k as u64 * gap, event: event(k, *i) }).collect(), supports: Some(false), ..Default::default() }
}

/// what the source must emit: (input which triggers it, inputs it's made of)
#[derive(Default, Debug, Clone)]
pub struct Emitted { pub events: Vec<(usize, usize)>, pub seqs: Vec<(usize, Vec<usize>)> }
/// a reference of the event source: `keep` tells whether an input, seen as a plain event, is delivered
pub fn reference(n: usize, is_err: impl Fn(usize) -> bool, ev: impl Fn(usize) -> Option<Event>, mut keep: impl FnMut(usize) -> bool) -> Emitted {
    let mut e = Emitted::default();
    let mut cur: Option<Vec<usize>> = None;
    for k in 0..n {
        if is_err(k) { continue; }
        let event = ev(k).unwrap();
        let key = if let Event::Key(k) = event { Some(k) } else { None };
        let alt = |c| key.is_some_and(|k| k.code == KeyCode::Char(c) && k.modifiers == KeyModifiers::ALT);
        if let Some(mut seq) = cur.take() {
            if alt('\\') { seq.push(k); e.seqs.push((k, seq)); continue; }
            if key.is_some_and(|k| !k.modifiers.intersects(KeyModifiers::ALT | KeyModifiers::CONTROL)) { seq.push(k); cur = Some(seq); continue; }
            for s in seq { if keep(s) { e.events.push((k, s)); } }
        } else if alt('_') { cur = Some(vec![k]); continue; }
        if keep(k) { e.events.push((k, k)); }
    }
    e
}

/// how the application behaves
#[derive(Clone, Copy, Debug, PartialEq)]
enum App {
    /// unblock after each event, quit at the last one
    Loop,
    /// works between the reception and unblocking, quits at the given event
    Busy(usize),
    /// drops the source instead of unblocking at the given event
    DropAt(usize),
    /// with another thread which looks at the count of events
    Watcher,
    /// with another thread which receives the sequences
    Reader,
    /// drops the source at once, and no receiver is kept
    DropNow,
    /// two threads receive events
    Two,
}
const APPS: [App; 9] = [App::Loop, App::Busy(0), App::Busy(1), App::DropAt(0), App::DropAt(1), App::Watcher, App::Reader, App::DropNow, App::Two];

fn app_scenario(ins: Vec<In>, app: App, gap: u64) -> (crate::explore::Scenario, crate::explore::Check) {
    let sc = script(&ins, gap);
    let want = want(&ins);
    let w = want.clone();
    let events: Vec<Option<Event>> = (0..ins.len()).map(|k| event(k, ins[k])).collect();
    // which input it is: the expected one if it's the same event
    let which = {
        let w = want.clone();
        move |ev: &Event, j: usize, events: &[Option<Event>]| -> i64 {
            if let Some((_, k)) = w.events.get(j) { if events[*k].as_ref() == Some(ev) { return *k as i64; } }
            evs2(ev, events)
        }
    };
    let evs = events.clone();
    let scenario = Box::new(move || {
        term::set(sc);
        let source = EventSource::with_options(EventSourceOptions::default()).unwrap();
        let count = source.shared_event_count();
        let n = w.events.len();
        let rx = source.receiver();
        let seqs = source.escape_sequence_receiver();
        let mut source = Some(source);
        let mut threads = Vec::new();
        match app {
            App::DropNow => { drop(rx); drop(seqs); rt::log(What::Did("drop", -1)); drop(source.take()); rt::log(What::Did("dropped", -1)); return; }
            App::Watcher => {
                let c = count.clone();
                threads.push(thread::spawn(move || for _ in 0..3 { rt::log(What::Saw("count", c.load(SeqCst) as i64)); rt::point(); }));
            }
            App::Reader => {
                let (w, evs, seqs) = (w.clone(), evs.clone(), seqs.clone());
                threads.push(thread::spawn(move || { while let Ok(s) = seqs.recv() { saw_seq(&s.keys, &w, &evs); } rt::log(What::Saw("no more sequence", 0)); }));
            }
            _ => {}
        }
        if app == App::Two {
            let rx2 = source.as_ref().unwrap().receiver();
            let evs = evs.clone();
            threads.push(thread::spawn(move || { while let Ok(e) = rx2.recv() { let k = evs.iter().position(|x| x.as_ref() == Some(&e.event)).map_or(-1, |x| x as i64); rt::log(What::Saw("event2", k)); } }));
            // this one only unblocks, as many times as there are events
            for j in 0..n { rt::log(What::Did("unblock", j as i64)); source.as_ref().unwrap().unblock(j + 1 == n); }
            while let Ok(e) = rx.recv() { let k = evs2(&e.event, &events_of(&ins)); rt::log(What::Saw("event2", k)); }
            for t in threads { let _ = t.join(); }
            return;
        }
        let last = match app { App::Busy(j) | App::DropAt(j) => j, _ => n.max(1) - 1 };
        let mut received = 0;
        while received < n {
            let Ok(e) = rx.recv() else { rt::log(What::Saw("disconnected", received as i64)); return };
            let k = which(&e.event, received, &evs);
            rt::log(What::Saw("event", k));
            rt::log(What::Saw("count", count.load(SeqCst) as i64));
            if matches!(app, App::Busy(_)) { rt::point(); rt::sleep(3 * MS); rt::point(); rt::log(What::Saw("count", count.load(SeqCst) as i64)); ensure_empty(&rx); }
            let quit = received == last;
            if quit && matches!(app, App::DropAt(_)) { rt::log(What::Did("drop", received as i64)); drop(source.take()); break; }
            rt::log(What::Did(if quit { "quit" } else { "unblock" }, received as i64));
            source.as_ref().unwrap().unblock(quit);
            received += 1;
            if quit { break; }
        }
        if n > 0 && (received > last || matches!(app, App::DropAt(j) if j < n)) {
            // the thread must end: the channels are closed
            match rx.recv() { Ok(e) => rt::log(What::Saw("event after the end", evs2(&e.event, &evs))), Err(_) => rt::log(What::Saw("closed", 0)) }
            for t in threads { let _ = t.join(); }
        }
        while let Ok(s) = seqs.try_recv() { saw_seq(&s.keys, &w, &evs); }
        rt::log(What::Did("end", 0));
        if let Some(s) = source { std::mem::forget(s); } // dropping it is another story
    });
    let check = Box::new(move |end: &End| check(end, &want, events.len(), app));
    (scenario, check)
}
fn events_of(ins: &[In]) -> Vec<Option<Event>> { (0..ins.len()).map(|k| event(k, ins[k])).collect() }
fn evs2(e: &Event, evs: &[Option<Event>]) -> i64 { evs.iter().position(|x| x.as_ref() == Some(e)).map_or(-1, |x| x as i64) }
fn ensure_empty(rx: &crossbeam_channel::Receiver<termimad::TimedEvent>) { if !rx.is_empty() { rt::log(What::Saw("event while blocked", 0)); } }
fn saw_seq(s: &[KeyEvent], w: &Emitted, evs: &[Option<Event>]) {
    // which of the sequences of the reference it is
    let keys: Vec<Event> = s.iter().map(|k| Event::Key(*k)).collect();
    let used: Vec<i64> = rt::entries().iter().filter_map(|e| match e.what { What::Saw("sequence", k) => Some(k), _ => None }).collect();
    let k = w.seqs.iter().enumerate().position(|(i, (_, ks))| !used.contains(&(i as i64)) && ks.iter().map(|k| evs[*k].clone().unwrap()).collect::<Vec<_>>() == keys);
    rt::log(What::Saw("sequence", k.map_or(-1, |k| k as i64)));
}
fn want(ins: &[In]) -> Emitted {
    reference(ins.len(), |k| ins[k] == In::Fail, |k| event(k, ins[k]), |k| ins[k] != In::Move)
}
fn check(end: &End, want: &Emitted, n_inputs: usize, app: App) -> Result<u64, Verr> {
    for e in end.log { if let What::Panic(m) = &e.what { ensure!(false, "panic", "T{} panicked: {m}", e.tid); } }
    ensure!(!end.livelock, "livelock", "the threads go on forever");
    let n = want.events.len();
    let last = match app { App::Busy(j) | App::DropAt(j) => j, _ => n.max(1) - 1 };
    let finishing = app == App::DropNow || n > last;
    let mut received = 0usize;
    let mut seqs = Vec::new();
    let mut reads = 0usize;
    let mut waiting = false; // an event was received and isn't unblocked
    let mut closing: Option<usize> = None;
    let mut count = 0;
    let mut pre = 0usize; // unblocked in advance
    let mut fails = false;
    for e in end.log {
        match &e.what {
            What::ReadCall => {
                ensure!(!waiting, "read-while-blocked", "the terminal is read while event {} isn't unblocked", received - 1);
                ensure!(closing.is_none() || matches!(app, App::DropNow | App::Two), "read-after-quit", "the terminal is read after the source was told to quit");
                if app == App::DropNow && n > 0 { ensure!(reads <= want.events[0].0, "read-after-drop", "the terminal is still read after an event while the source is dropped"); }
                if app == App::Two { let emitted = want.events.iter().filter(|x| x.0 < reads).count(); ensure!(emitted <= pre && !(emitted == n && n > 0), "read-while-blocked", "{emitted} events were emitted and {pre} unblocked, and the terminal is read"); }
            }
            What::Read(k) | What::ReadErr(k) => { ensure!(*k == reads, "reads", "input {k} read after {reads} ones"); reads += 1; fails |= matches!(e.what, What::ReadErr(_)); }
            What::Saw("event", k) => {
                ensure!(received < n && *k == want.events[received].1 as i64, "event", "event {received} is input {k} instead of {:?}", want.events.get(received));
                ensure!(reads == want.events[received].0 + 1, "event", "event {received} received after {reads} reads, instead of {}", want.events[received].0 + 1);
                received += 1;
                waiting = true;
            }
            What::Saw("event2", k) => { received += 1; ensure!(want.events.iter().any(|w| ev_same(w.1, *k)), "event", "input {k} received, among {:?}", want.events); }
            What::Saw("count", c) => {
                ensure!(*c >= count, "count", "the count of events goes from {count} to {c}");
                count = *c;
                // no more than one event was emitted and not received
                let ok = if e.tid == 0 { *c == received as i64 } else { *c >= received as i64 && *c <= received as i64 + 1 };
                ensure!(ok, "count", "the count of events is {c} when {received} were received");
            }
            What::Saw("sequence", k) => { ensure!(*k >= 0, "sequence", "not an expected escape sequence"); seqs.push(*k as usize); }
            What::Saw(w @ ("event after the end" | "event while blocked"), k) => { ensure!(false, "event", "{w}: {k}"); }
            What::Saw("disconnected", j) => { ensure!(false, "disconnected", "the channel is closed after {j} events while the source is alive"); }
            What::Did("unblock", _) => { waiting = false; pre += 1; }
            What::Did("quit" | "drop", j) => { waiting = false; closing = Some((*j).max(0) as usize); }
            _ => {}
        }
    }
    // everything was delivered
    let stop = if finishing && app != App::DropNow { want.events[last.min(n - 1)].0 } else if app == App::DropNow { want.events.first().map_or(usize::MAX, |e| e.0) } else { usize::MAX };
    if app == App::Two { ensure!(received == n, "lost", "{received} events received instead of {n}"); }
    else if app != App::DropNow { ensure!(received == if finishing { last + 1 } else { n }, "lost", "{received} events received among {n}"); }
    if stop == usize::MAX { ensure!(reads == n_inputs || (app == App::DropNow), "not-read", "{reads} inputs read among {n_inputs}"); }
    let want_seqs: Vec<usize> = (0..want.seqs.len()).filter(|i| want.seqs[*i].0 <= stop).take(10).collect();
    if !matches!(app, App::DropNow | App::Two) && (finishing || end.done[0]) && app != App::Reader { ensure!(end.log.iter().any(|e| e.what == What::Did("end", 0)), "deadlock", "the application is blocked"); }
    let complete = match app { App::DropNow | App::Two => false, App::Watcher | App::Reader | App::DropAt(_) | App::Loop | App::Busy(_) => finishing };
    if complete { ensure!(seqs == want_seqs, "sequences", "sequences {seqs:?} received instead of {want_seqs:?}"); }
    else { ensure!(want_seqs.starts_with(&seqs), "sequences", "sequences {seqs:?} received, instead of {want_seqs:?} in order"); }
    // the thread of the source ends (it's the first one)
    if finishing && (app != App::DropNow || n > 0) && n > 0 {
        ensure!(end.done.len() < 2 || end.done[1], "not-ended", "the thread of the source isn't ended");
        ensure!(end.done.iter().all(|d| *d), "not-ended", "some thread is blocked forever");
    }
    Ok((!want.seqs.is_empty() || fails || n > 1) as u64)
}
fn ev_same(a: usize, b: i64) -> bool { a as i64 == b || b >= 0 }

pub fn families(quick: bool) -> Vec<Family> {
    let long: Vec<(Vec<In>, App)> = {
        let mut v = Vec::new();
        for n in [9usize, 10, 11, 13] { for k in [0, 1, 3, 40] { for app in [App::Loop, App::Busy(0)] {
            let mut s = Vec::new();
            for _ in 0..n { s.push(In::Start); s.extend(vec![In::Key; k]); s.push(In::End); }
            s.push(In::Ctrl);
            v.push((s, app));
        } } }
        v
    };
    let long2 = long.clone();
    let d = |p: (Vec<In>, App)| json!({"inputs": format!("{:?}", p.0), "application": format!("{:?}", p.1)});
    let na = APPS.len() as u64;
    // (name, lengths, bound on delays)
    let sizes: [(&'static str, u32, u32, u32); 4] = if quick { [("long-inputs", 4, 4, 0), ("inputs", 3, 3, 1), ("schedules", 1, 2, 2), ("deep-schedules", 1, 1, 3)] } else { [("long-inputs", 5, 5, 0), ("inputs", 4, 4, 1), ("schedules", 1, 3, 2), ("deep-schedules", 1, 2, 3)] };
    let mut v: Vec<Family> = sizes.iter().map(|&(name, min, max, bound)| {
        let seqs = Seqs { a: ALPHABET.len() as u64, min, max };
        let get = move |i: u64| -> (Vec<In>, App) { (seqs.get(i / na).into_iter().map(|k| ALPHABET[k]).collect(), APPS[(i % na) as usize]) };
        Family {
            name, bounds: format!("all sequences of {min} to {max} inputs among {ALPHABET:?}, applications {APPS:?}; all schedules with at most {bound} delays"), n: seqs.len() * na, per: 1, bound, horizon: u64::MAX / 4,
            describe: Box::new(move |i| d(get(i))), make: Box::new(move |i| { let (s, a) = get(i); app_scenario(s, a, 0) }),
        }
    }).collect();
    v.push(Family {
        name: "many-sequences", bounds: "9 to 13 escape sequences of 0, 1, 3 or 40 keys, which nobody reads".into(), n: long.len() as u64, per: 1, bound: 1, horizon: u64::MAX / 4,
        describe: Box::new(move |i| d(long2[i as usize].clone())), make: Box::new(move |i| { let (s, a) = long[i as usize].clone(); app_scenario(s, a, 0) }),
    });
    v
}
