//! C20: clicks, double clicks, key combinations and filters
use super::*;
use crate::ensure;
use crate::props::delivery::{key, reference};
use crate::rt::{self, MS};
use crate::term::{self, Input, Script};
use crossterm::event::*;
use crokey::{Combiner, KeyCombination};
use serde_json::json;
use termimad::{crossterm, EventSource, EventSourceOptions, TimedEvent};

fn mouse(kind: MouseEventKind, column: u16, row: u16, modifiers: KeyModifiers) -> Event { Event::Mouse(MouseEvent { kind, column, row, modifiers }) }
fn kev(code: KeyCode, m: KeyModifiers, kind: KeyEventKind) -> Event { Event::Key(KeyEvent::new_with_kind(code, m, kind)) }
const L: MouseButton = MouseButton::Left;
fn clicks() -> Vec<(&'static str, Event)> {
    use MouseEventKind::*;
    let n = KeyModifiers::NONE;
    vec![
        ("down A", mouse(Down(L), 5, 3, n)), ("up A", mouse(Up(L), 5, 3, n)),
        ("up B", mouse(Up(L), 5, 4, n)), ("down B", mouse(Down(L), 5, 4, n)), ("up C", mouse(Up(L), 6, 3, n)),
        ("right up A", mouse(Up(MouseButton::Right), 5, 3, n)), ("drag A", mouse(Drag(L), 5, 3, n)), ("ctrl up A", mouse(Up(L), 5, 3, KeyModifiers::CONTROL)),
        ("a", key('a', n)),
    ]
}
fn others() -> Vec<(&'static str, Event)> {
    use MouseEventKind::*;
    let n = KeyModifiers::NONE;
    vec![
        ("moved", mouse(Moved, 5, 3, n)), ("drag", mouse(Drag(L), 5, 3, n)), ("right drag", mouse(Drag(MouseButton::Right), 5, 3, n)), ("scroll", mouse(ScrollDown, 5, 3, n)),
        ("right down", mouse(Down(MouseButton::Right), 5, 3, n)), ("middle up", mouse(Up(MouseButton::Middle), 5, 3, n)), ("up A", mouse(Up(L), 5, 3, n)),
        ("resize", Event::Resize(20, 10)), ("paste", Event::Paste("p".into())), ("focus", Event::FocusGained), ("a", key('a', n)), ("release a", kev(KeyCode::Char('a'), n, KeyEventKind::Release)),
        ("alt-_", key('_', KeyModifiers::ALT)),
    ]
}
fn keys() -> Vec<(&'static str, Event)> {
    use KeyEventKind::*;
    let n = KeyModifiers::NONE;
    let c = KeyCode::Char;
    let shift = KeyCode::Modifier(ModifierKeyCode::LeftShift);
    vec![
        ("a", kev(c('a'), n, Press)), ("a released", kev(c('a'), n, Release)), ("a repeated", kev(c('a'), n, Repeat)), ("b", kev(c('b'), n, Press)),
        ("ctrl-a", kev(c('a'), KeyModifiers::CONTROL, Press)), ("ctrl-a released", kev(c('a'), KeyModifiers::CONTROL, Release)), ("ctrl-b", kev(c('b'), KeyModifiers::CONTROL, Press)),
        ("space", kev(c(' '), n, Press)), ("shift", kev(shift, KeyModifiers::SHIFT, Press)), ("shift released", kev(shift, n, Release)),
        ("A", kev(c('A'), KeyModifiers::SHIFT, Press)), ("alt-_", kev(c('_'), KeyModifiers::ALT, Press)), ("alt-\\", kev(c('\\'), KeyModifiers::ALT, Press)), ("alt-_ released", kev(c('_'), KeyModifiers::ALT, Release)),
        ("enter", kev(KeyCode::Enter, n, Press)), ("click", mouse(MouseEventKind::Up(L), 1, 1, n)),
    ]
}

#[derive(Clone, Copy, Debug)]
struct Opts { combine: bool, mandate: bool, raw_keys: bool, moves: bool, drags: bool }
impl Opts {
    fn get(&self) -> EventSourceOptions {
        EventSourceOptions { combine_keys: self.combine, mandate_modifier_for_multiple_keys: self.mandate, discard_raw_key_events: !self.raw_keys, discard_mouse_move: !self.moves, discard_mouse_drag: !self.drags }
    }
}
fn opts(i: u64) -> Opts { Opts { combine: i & 1 != 0, mandate: i & 2 == 0, raw_keys: i & 4 != 0, moves: i & 8 != 0, drags: i & 16 == 0 } }

struct Want { event: Event, at: u64, double: bool, comb: Option<KeyCombination> }
fn expected(script: &[(u64, Event)], o: Opts) -> (Vec<Want>, Vec<Vec<KeyEvent>>) {
    let mut combiner = Combiner::default();
    if o.combine { combiner.set_keyboard_enhancement_flags_externally_managed(); combiner.enable_combining().unwrap(); }
    combiner.set_mandate_modifier_for_multiple_keys(o.mandate);
    let combs = std::cell::RefCell::new(std::collections::HashMap::new());
    let e = reference(script.len(), |_| false, |k| Some(script[k].1.clone()), |k| match &script[k].1 {
        Event::Key(key) => { let c = combiner.transform(*key); combs.borrow_mut().insert(k, c); c.is_some() || o.raw_keys }
        Event::Mouse(m) => match m.kind { MouseEventKind::Moved => o.moves, MouseEventKind::Drag(_) => o.drags, _ => true },
        _ => true,
    });
    let combs = combs.into_inner();
    let mut up: Option<(u64, u16, u16)> = None;
    let events = e.events.iter().map(|&(at, k)| {
        let t = script[at].0;
        let mut double = false;
        if let Event::Mouse(m) = &script[k].1 {
            if matches!(m.kind, MouseEventKind::Down(L) | MouseEventKind::Up(L)) { double = up.is_some_and(|u| (u.1, u.2) == (m.column, m.row) && t - u.0 < 700 * MS); }
            if m.kind == MouseEventKind::Up(L) { up = Some((t, m.column, m.row)); }
        }
        Want { event: script[k].1.clone(), at: t, double, comb: combs.get(&k).copied().flatten() }
    }).collect();
    let seqs = e.seqs.iter().map(|(_, ks)| ks.iter().map(|k| match script[*k].1 { Event::Key(k) => k, _ => unreachable!() }).collect()).collect();
    (events, seqs)
}

static mut FAILURE: Option<Verr> = None;
static mut INTERESTING: u64 = 0;

fn compare(e: &TimedEvent, w: &Want, start: std::time::Instant, start_ns: u64) -> Result<(), Verr> {
    ensure!(e.event == w.event, "event", "{:?} received instead of {:?}", e.event, w.event);
    ensure!((e.time - start).as_nanos() as u64 == w.at - start_ns, "time", "{:?} has time {:?} instead of {}ms", e.event, e.time - start, (w.at - start_ns) / MS);
    ensure!(e.double_click == w.double, "double-click", "{:?} has double_click = {}", e.event, e.double_click);
    ensure!(e.key_combination == w.comb, "combination", "{:?} has combination {:?} instead of {:?}", e.event, e.key_combination, w.comb);
    let click = match &w.event { Event::Mouse(m) if m.kind == MouseEventKind::Up(L) && m.modifiers == KeyModifiers::NONE && !w.double => Some((m.column, m.row)), _ => None };
    ensure!(e.as_click() == click, "as-click", "as_click gives {:?} for {:?}", e.as_click(), e);
    for k in [KeyEvent::new(KeyCode::Char('a'), KeyModifiers::NONE), KeyEvent::new(KeyCode::Char('a'), KeyModifiers::CONTROL), KeyEvent::new(KeyCode::Char('A'), KeyModifiers::SHIFT), KeyEvent::new(KeyCode::Enter, KeyModifiers::NONE), KeyEvent::new(KeyCode::Char(' '), KeyModifiers::NONE)] {
        let kc: KeyCombination = k.into();
        let is = w.comb == Some(kc) || matches!(&w.event, Event::Key(ev) if KeyCombination::from(*ev) == kc);
        ensure!(e.is_key(k) == is, "is-key", "is_key({kc}) is {} for {:?}", !is, e);
    }
    unsafe { INTERESTING += (w.double || w.comb.is_some() || click.is_some()) as u64; }
    Ok(())
}

fn play(script: Vec<(u64, Event)>, o: Opts) -> Result<(), Verr> {
    let start_ns = rt::now();
    let start = std::time::Instant::now();
    // a last event, which interrupts an eventual sequence
    let mut script: Vec<(u64, Event)> = script.into_iter().map(|(t, e)| (start_ns + t, e)).collect();
    script.push((script.last().map_or(start_ns, |s| s.0), Event::FocusLost));
    let (want, seqs) = expected(&script, o);
    term::set(Script { inputs: script.iter().map(|(at, e)| Input { at: *at, event: Some(e.clone()) }).collect(), supports: Some(true), ..Default::default() });
    let source = EventSource::with_options(o.get()).map_err(|e| ("new".to_string(), e.to_string()))?;
    let rx = source.receiver();
    let sx = source.escape_sequence_receiver();
    for (j, w) in want.iter().enumerate() {
        let Ok(e) = rx.recv_timeout(std::time::Duration::from_secs(100)) else { return Err(("lost".into(), format!("nothing received instead of {:?}", w.event))) };
        compare(&e, w, start, start_ns)?;
        source.unblock(j + 1 == want.len());
    }
    for w in &seqs {
        let Ok(s) = sx.try_recv() else { return Err(("sequence".into(), format!("no sequence instead of {w:?}"))) };
        ensure!(&s.keys == w, "sequence", "{:?} received instead of {w:?}", s.keys);
        let text: String = w.iter().filter_map(|k| match k.code { KeyCode::Char(c) if k.modifiers == KeyModifiers::NONE => Some(c), _ => None }).collect();
        ensure!(s.to_string() == text, "sequence-display", "the sequence is displayed as {:?} instead of {text:?}", s.to_string());
        unsafe { INTERESTING += 1; }
    }
    ensure!(sx.try_recv().is_err(), "sequence", "an unexpected escape sequence is received");
    ensure!(rx.recv().is_err(), "event", "an event is received after the end");
    Ok(())
}

const CHUNK: u64 = 48;
fn family(name: &'static str, alphabet: fn() -> Vec<(&'static str, Event)>, gaps: &'static [u64], min: u32, max: u32, options: Vec<Opts>) -> Family {
    let a = alphabet().len() as u64;
    let seqs = Seqs { a: a * gaps.len() as u64, min, max };
    let total = seqs.len() * options.len() as u64;
    let options2 = options.clone();
    let names: Vec<&str> = alphabet().iter().map(|x| x.0).collect();
    let bounds = format!("all sequences of {min} to {max} events among {names:?} with gaps (ms) among {gaps:?}, {} sets of options ({CHUNK} sequences per scenario)", options.len());
    let script = move |i: u64| -> Vec<(u64, usize)> {
        let mut t = 0;
        seqs.get(i).into_iter().map(|x| { t += gaps[x / a as usize] * MS; (t, x % a as usize) }).collect()
    };
    Family {
        name, bounds, n: total.div_ceil(CHUNK), per: CHUNK, bound: 0, horizon: u64::MAX / 4,
        describe: Box::new(move |i| { let k = i * CHUNK; let names = &names; json!({"first": k, "options": format!("{:?}", options[(k % options.len() as u64) as usize]), "events": script(k / options.len() as u64).iter().map(|(t, e)| format!("{} at {}ms", names[*e], t / MS)).collect::<Vec<_>>()}) }),
        make: Box::new(move |i| {
            let options = options2.clone();
            let scenario = Box::new(move || {
                let al = alphabet();
                for k in i * CHUNK..((i + 1) * CHUNK).min(total) {
                    let o = options[(k % options.len() as u64) as usize];
                    let s: Vec<(u64, Event)> = script(k / options.len() as u64).into_iter().map(|(t, e)| (t, al[e].1.clone())).collect();
                    if let Err((sig, msg)) = play(s.clone(), o) {
                        let s: Vec<String> = s.iter().map(|(t, e)| format!("at {}ms {e:?}", t / MS)).collect();
                        unsafe { FAILURE = Some((sig, format!("{msg}\n  in {s:#?}\n  {o:?}"))); }
                        return;
                    }
                    rt::log(What::Did("played", k as i64));
                }
            });
            let check = Box::new(|end: &End| {
                if let Some(f) = unsafe { (*std::ptr::addr_of_mut!(FAILURE)).take() } { return Err(f); }
                sane(end)?;
                Ok(unsafe { INTERESTING })
            });
            (scenario, check)
        }),
    }
}

/// long escape sequences, properly ended or not
fn long_script(i: u64) -> Vec<(u64, Event)> {
    let n = KeyModifiers::NONE;
    let (len, end) = (i / 4, i % 4);
    let mut v = vec![(0, key('_', KeyModifiers::ALT))];
    for k in 0..len { v.push((k * MS, key((b'a' + (k % 26) as u8) as char, n))); }
    v.push((len * MS, match end { 0 => key('\\', KeyModifiers::ALT), 1 => key('x', KeyModifiers::CONTROL), 2 => mouse(MouseEventKind::Up(L), 5, 3, n), _ => Event::Resize(30, 20) }));
    v.push((len * MS + MS, key('z', n)));
    v
}
fn long_family(max: u64) -> Family {
    const CH: u64 = 16;
    let total = (max + 1) * 4 * 8;
    Family {
        name: "long-sequences", bounds: format!("escape sequences of 0 to {max} keys, ended properly, by ctrl-x, by a click or by a resize, then a key; 8 sets of options ({CH} per scenario)"), n: total.div_ceil(CH), per: CH, bound: 0, horizon: u64::MAX / 4,
        describe: Box::new(move |i| json!({"first length": i * CH / 32, "options and ends": "all"})),
        make: Box::new(move |i| {
            let scenario = Box::new(move || {
                for k in i * CH..((i + 1) * CH).min(total) {
                    let (s, o) = (long_script(k / 8), opts(k % 8));
                    if let Err((sig, msg)) = play(s, o) {
                        unsafe { FAILURE = Some((sig, format!("{msg}\n  in a sequence of {} keys with ending {} ({o:?})", k / 32, k / 8 % 4))); }
                        return;
                    }
                    rt::log(What::Did("played", k as i64));
                }
            });
            let check = Box::new(|end: &End| {
                if let Some(f) = unsafe { (*std::ptr::addr_of_mut!(FAILURE)).take() } { return Err(f); }
                sane(end)?;
                Ok(unsafe { INTERESTING })
            });
            (scenario, check)
        }),
    }
}

pub fn families(quick: bool) -> Vec<Family> {
    let plain = vec![opts(0)];
    let all: Vec<Opts> = (0..32).map(opts).collect();
    let by_keys: Vec<Opts> = (0..8).map(opts).collect();
    vec![
        family("clicks", clicks, &[1, 350, 699, 700], 1, if quick { 3 } else { 4 }, plain.clone()),
        family("quick-clicks", clicks, &[300], 4, if quick { 5 } else { 6 }, plain),
        family("options", others, &[10], 1, if quick { 3 } else { 4 }, all),
        family("keys", keys, &[10], 1, 4, by_keys),
        long_family(if quick { 70 } else { 300 }),
    ]
}
