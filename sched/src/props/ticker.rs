//! C21: beams of a ticker
use super::*;
use crate::ensure;
use crate::rt::{self, MS};
use serde_json::json;
use std::thread;
use termimad::Ticker;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Once(u64), Several(u64, usize), Inf(u64), Sleep(u64), Stop(usize), StopAll }
const OPS: [Op; 11] = [Op::Once(10), Op::Several(10, 2), Op::Sleep(10), Op::Stop(0), Op::Several(15, 3), Op::Inf(40), Op::Sleep(25), Op::Stop(1), Op::StopAll, Op::Several(10, 0), Op::Sleep(5)];
/// what's done with the ticker at the end
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fin { WaitDrop, Drop, Keep }
const FINS: [Fin; 3] = [Fin::WaitDrop, Fin::Drop, Fin::Keep];
const WAIT: u64 = 200;
const HORIZON: u64 = 400 * MS;

#[derive(Clone, Debug)]
struct Beam { start: u64, period: u64, count: Option<usize>, stop: Option<u64> }

fn scenario(ops: Vec<Op>, fin: Fin, exact: bool) -> (crate::explore::Scenario, crate::explore::Check) {
    let todo = ops.clone();
    let scenario = Box::new(move || {
        let mut ticker: Ticker<i64> = Ticker::new();
        let rx = ticker.tick_receiver.clone();
        let consumer = thread::spawn(move || { while let Ok(p) = rx.recv() { rt::log(What::Saw("tick", p)); } rt::log(What::Saw("closed", 0)); });
        let mut ids = Vec::new();
        for op in todo {
            let n = ids.len() as i64;
            match op {
                Op::Once(p) => { rt::log(What::Did("start", n)); ids.push(ticker.tick_once(n, dur(p))) }
                Op::Several(p, c) => { rt::log(What::Did("start", n)); ids.push(ticker.tick_several_times(n, dur(p), c)) }
                Op::Inf(p) => { rt::log(What::Did("start", n)); ids.push(ticker.tick_infinitely(n, dur(p))) }
                Op::Sleep(d) => rt::sleep(d * MS),
                Op::Stop(k) => { let id = ids.get(k).copied().unwrap_or(1234); rt::log(What::Did("stop", k as i64)); ticker.stop_beam(id); rt::log(What::Did("stopped", k as i64)); }
                Op::StopAll => { rt::log(What::Did("stop", -1)); ticker.stop_all_beams(); rt::log(What::Did("stopped", -1)); }
            }
        }
        let mut sorted = ids.clone();
        sorted.sort();
        sorted.dedup();
        if sorted.len() != ids.len() { rt::log(What::Saw("same ids", 0)); }
        if fin != Fin::Drop { rt::sleep(WAIT * MS); }
        if fin == Fin::Keep { std::mem::forget(ticker); return; }
        rt::log(What::Did("stop", -1));
        drop(ticker);
        rt::log(What::Did("stopped", -1));
        let _ = consumer.join();
    });
    let check = Box::new(move |end: &End| {
        sane(end)?;
        let mut beams: Vec<Beam> = Vec::new();
        let mut specs = ops.iter().filter_map(|o| match *o { Op::Once(p) => Some((p, Some(1))), Op::Several(p, c) => Some((p, Some(c))), Op::Inf(p) => Some((p, None)), _ => None });
        let mut ticks: Vec<Vec<u64>> = Vec::new();
        let mut closed = false;
        for e in end.log {
            match &e.what {
                What::Did("start", _) => { let (p, c) = specs.next().unwrap(); beams.push(Beam { start: e.time, period: p * MS, count: c, stop: None }); ticks.push(Vec::new()); }
                What::Did("stop", k) => for (j, b) in beams.iter_mut().enumerate() { if (*k == -1 || *k == j as i64) && b.stop.is_none() { b.stop = Some(e.time); } },
                What::Saw("tick", p) => { ensure!(*p >= 0 && (*p as usize) < beams.len(), "payload", "a tick has payload {p}"); ticks[*p as usize].push(e.time); }
                What::Saw("closed", _) => closed = true,
                What::Saw("same ids", _) => ensure!(false, "ids", "two beams have the same id"),
                _ => {}
            }
        }
        let mut some = 0;
        for (j, (b, t)) in beams.iter().zip(&ticks).enumerate() {
            let what = format!("beam {j} ({b:?}) with ticks at {:?} ms", t.iter().map(|t| *t as f64 / MS as f64).collect::<Vec<_>>());
            some += t.len() as u64;
            for (k, time) in t.iter().enumerate() {
                ensure!(*time >= b.start + (k as u64 + 1) * b.period, "early", "{what}: tick {k} is too early");
                if exact { ensure!(*time == b.start + (k as u64 + 1) * b.period, "late", "{what}: tick {k} is late while nothing delays it"); }
            }
            if let Some(c) = b.count { ensure!(t.len() <= c, "too-many", "{what}: too many ticks"); }
            // without delay, nothing comes after the stop (see the other family for when there are some)
            if let Some(stop) = b.stop { if exact { for x in t { ensure!(*x <= stop, "after-stop", "{what}: a tick comes after the stop"); } } }
            // nothing's missing
            let last = b.stop.unwrap_or(end.now);
            let due = (last.saturating_sub(b.start) / b.period) as usize; // a tick due at the time of the stop is optional
            let due = if b.stop.is_some() && last >= b.start && (last - b.start) % b.period == 0 { due.saturating_sub(1) } else { due };
            let due = b.count.map_or(due, |c| due.min(c));
            if exact { ensure!(t.len() >= due, "missing", "{what}: {due} ticks are due"); }
            else if b.stop.is_none() {
                if let Some(c) = b.count { ensure!(t.len() == c, "missing", "{what}: {c} ticks are due"); }
            }
            // its thread ends, when it's stopped or when it's done (T1 is the consumer)
            let must_end = b.count.is_some() || b.stop.is_some();
            ensure!(end.done[j + 2] == must_end || !must_end, "not-ended", "{what}: its thread isn't ended");
        }
        if fin != Fin::Keep { ensure!(closed, "not-closed", "the channel isn't closed once the ticker is dropped"); }
        // a beam which isn't stopped by name isn't stopped
        Ok(some)
    });
    (scenario, check)
}
fn dur(p: u64) -> std::time::Duration { std::time::Duration::from_millis(p) }

/// a stopped beam gives at most one more tick: counted by the application, which drains the channel at the stop
fn stop_scenario(period: u64, before: u64, which: usize, beams: usize) -> (crate::explore::Scenario, crate::explore::Check) {
    let scenario = Box::new(move || {
        let mut ticker: Ticker<i64> = Ticker::new();
        let rx = ticker.tick_receiver.clone();
        let ids: Vec<_> = (0..beams).map(|k| ticker.tick_infinitely(k as i64, dur(period))).collect();
        rt::sleep(before * MS);
        if which < beams { ticker.stop_beam(ids[which]); } else { ticker.stop_all_beams(); }
        while rx.try_recv().is_ok() {}
        rt::log(What::Did("stopped", which as i64));
        // in several times, so that a delay can't skip it all
        for _ in 0..7 { rt::sleep(10 * MS); }
        while let Ok(p) = rx.try_recv() { rt::log(What::Saw("tick", p)); }
        std::mem::forget(ticker);
    });
    let check = Box::new(move |end: &End| {
        sane(end)?;
        let mut n = vec![0; beams];
        for e in end.log { if let What::Saw("tick", p) = e.what { ensure!(p >= 0 && (p as usize) < beams, "payload", "payload {p}"); n[p as usize] += 1; } }
        for (j, n) in n.iter().enumerate() {
            if which >= beams || j == which { ensure!(*n <= 1, "after-stop", "beam {j} gives {n} ticks after being stopped"); ensure!(end.done[j + 1], "not-ended", "the thread of the stopped beam {j} isn't ended"); }
            else { ensure!(*n >= 2, "missing", "beam {j}, which isn't stopped, gives only {n} ticks"); }
        }
        Ok(1)
    });
    (scenario, check)
}

pub fn families(quick: bool) -> Vec<Family> {
    let sizes: [(&'static str, u32, u32, u32); 3] = if quick { [("beams", 1, 4, 0), ("schedules", 1, 2, 1), ("deep-schedules", 1, 1, 2)] } else { [("beams", 1, 5, 0), ("schedules", 1, 3, 1), ("deep-schedules", 1, 2, 2)] };
    let mut v: Vec<Family> = sizes.iter().map(|&(name, min, max, bound)| {
        let seqs = Seqs { a: OPS.len() as u64, min, max };
        let get = move |i: u64| -> (Vec<Op>, Fin) { (seqs.get(i / 3).into_iter().map(|k| OPS[k]).collect(), FINS[(i % 3) as usize]) };
        Family {
            name, bounds: format!("all sequences of <= {max} operations among {OPS:?}, then {FINS:?}; all schedules with at most {bound} delays"), n: seqs.len() * 3, per: 1, bound, horizon: HORIZON,
            describe: Box::new(move |i| { let (o, f) = get(i); json!(format!("{o:?}, then {f:?}")) }), make: Box::new(move |i| { let (o, f) = get(i); scenario(o, f, bound == 0) }),
        }
    }).collect();
    // many beams: what's stopped is what's asked for, whatever was stopped before
    const MORE: [Op; 9] = [Op::Stop(0), Op::Stop(1), Op::Stop(2), Op::Stop(3), Op::Inf(10), Op::Once(10), Op::Sleep(10), Op::Stop(4), Op::StopAll];
    let seqs = Seqs { a: if quick { 8 } else { 9 }, min: 1, max: if quick { 4 } else { 5 } };
    let get = move |i: u64| -> (Vec<Op>, Fin) {
        let starts = [Op::Inf(10), Op::Several(10, 4), Op::Inf(15), Op::Inf(10)];
        (starts.into_iter().chain(seqs.get(i / 2).into_iter().map(|k| MORE[k])).collect(), [Fin::WaitDrop, Fin::Drop][(i % 2) as usize])
    };
    v.push(Family {
        name: "many-beams", bounds: format!("4 beams, then all sequences of <= {} operations among {:?}, then a wait or not; the schedule without delay", seqs.max, &MORE[..seqs.a as usize]), n: seqs.len() * 2, per: 1, bound: 0, horizon: HORIZON,
        describe: Box::new(move |i| { let (o, f) = get(i); json!(format!("{o:?}, then {f:?}")) }), make: Box::new(move |i| { let (o, f) = get(i); scenario(o, f, true) }),
    });
    for (name, beams, bound) in [("stop", 1usize, if quick { 2 } else { 3 }), ("stop-one", 2, if quick { 1 } else { 2 })] {
        let stop = move |i: u64| -> (u64, usize) { ([0, 10, 15, 20][(i % 4) as usize], (i / 4) as usize) };
        v.push(Family {
            name, bounds: format!("{beams} infinite beams of period 10ms, one or all of them being stopped after 0, 10, 15 or 20 ms; all schedules with at most {bound} delays"), n: 4 * (beams as u64 + 1), per: 1, bound, horizon: 300 * MS,
            describe: Box::new(move |i| { let (b, w) = stop(i); json!(format!("{beams} beams of period 10, stop {w} after {b} ms")) }), make: Box::new(move |i| { let (b, w) = stop(i); stop_scenario(10, b, w, beams) }),
        });
    }
    v
}
