//! TextView and MadView: painting (C09), scrolling (C10), scrollbars (C11)
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use serde_json::json;
use termimad::crossterm::event::*;
use termimad::*;

pub fn run(ctx: &Ctx) {
    match ctx.property.as_str() {
        "C09" => paint(ctx),
        "C10" => { ctx.bfs(&Scroll); ctx.bfs(&Mad); live(ctx); }
        _ => scrollbars(ctx),
    }
}

/// glyphs expected on a row of the screen
pub fn expect_row(glyphs: &[Glyph], w: usize) -> Vec<(String, Sty)> {
    let mut v: Vec<(String, Sty)> = Vec::new();
    for g in glyphs {
        if g.w == 0 { if let Some(l) = v.iter_mut().rev().find(|l| !l.0.is_empty()) { l.0.push(g.ch); } continue; }
        v.push((g.ch.to_string(), g.st));
        for _ in 1..g.w { v.push((String::new(), g.st)); }
    }
    v.truncate(w.max(v.len()));
    v
}

/// compare a part of a screen row with what's expected
pub fn same_row(scr: &Screen, x: usize, y: usize, want: &[(String, Sty)], what: &str) -> Res {
    for (i, (s, st)) in want.iter().enumerate() {
        let c = scr.at(x + i, y);
        let ok = c.map_or(false, |c| c.s == *s && c.st == *st);
        ensure!(ok, "paint", "{what}: cell {},{} is {:?} instead of {:?} (row {:?}, expected {:?})", x + i, y, c, (s, st), scr.row_text(x, y, want.len()), want.iter().map(|x| x.0.as_str()).collect::<String>());
    }
    Ok(())
}
pub fn clean(scr: &Screen, a: &Area, what: &str) -> Res {
    ensure!(scr.err.is_none(), "screen", "{what}: {:?}", scr.err);
    let (l, t, w, h) = (a.left as usize, a.top as usize, a.width as usize, a.height as usize);
    let o = scr.outside(l, t, w, h);
    ensure!(o.is_empty(), "outside", "{what}: cells written outside of {a:?}: {o:?}");
    let o = scr.holes(l, t, w, h);
    ensure!(o.is_empty(), "hole", "{what}: cells of {a:?} not written: {o:?}");
    ensure!(scr.st.plain(), "leak", "{what}: style {:?} leaks after writing", scr.st);
    Ok(())
}

const LINES: &[&str] = &["aa bb cc dd ee", "    let x", "* item one two", "> quo ted", "|p q|r|", "|-:|:-|", "# Head er", "", "---", "漢字 **b `c` d**"];

fn paint(ctx: &Ctx) {
    let sk: Vec<(String, MadSkin)> = skins().into_iter().take(ctx.by(3, 6)).collect();
    let seqs = Seqs { a: LINES.len() as u64, min: 0, max: ctx.by(3, 4) };
    let tall: String = (0..9).map(|i| LINES[i]).collect::<Vec<_>>().join("\n");
    let areas: Vec<Area> = [(0, 0), (3, 2)].into_iter().flat_map(|(l, t)| {
        let mut v = Vec::new();
        for w in [6, 7, 9, 14] { for h in 1..=6 { v.push(Area::new(l, t, w, h)); } }
        v
    }).collect();
    let n = seqs.len() * 2;
    let doc = |i: u64| {
        let d = seqs.get(i / 2).into_iter().map(|x| LINES[x]).collect::<Vec<_>>().join("\n");
        if i % 2 == 0 { d } else { format!("{d}\n{tall}") }
    };
    ctx.family(&Fam {
        name: "paint".into(),
        bounds: format!("all documents of <= {} lines over {LINES:?}, alone or before a 9 lines document, {} areas (2 positions, widths 6,7,9,14, heights 1..=6), all scrolls, with or without scrollbar, {} skins, TextView, MadView and write_in_area_on", seqs.max, areas.len(), sk.len()),
        n,
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| {
            let md = doc(i);
            for (sn, skin) in &sk { for a in &areas {
                if i % 2 == 1 && a.left == 0 && a.height > 3 { continue; }
                paint_case(&md, skin, a, l).map_err(|v| Viol { msg: format!("skin {sn}, {a:?}, {md:?}: {}", v.msg), ..v })?;
            } }
            Ok(())
        },
    });
}

fn paint_case(md: &str, skin: &MadSkin, a: &Area, l: &mut Local) -> Res {
    let text = guard(|| skin.area_text(md, a))?;
    let height = text.lines.len();
    let (h, w) = (a.height as usize, a.width as usize);
    let max_scroll = height.saturating_sub(h);
    for scroll in 0..=max_scroll { for show in [true, false] {
        let bar = show && height > h;
        let cw = w - bar as usize;
        let mut outs: Vec<(&str, Vec<u8>)> = Vec::new();
        let mut thumb = None;
        guard(|| {
            let mut v = TextView::from(a, &text);
            v.show_scrollbar = show;
            v.set_scroll(scroll);
            assert!(v.scroll == scroll, "set_scroll gives {} instead of {scroll}", v.scroll);
            let mut o = Vec::new();
            v.write_on(&mut o).unwrap();
            outs.push(("text view", o));
            thumb = v.scrollbar();
            if show {
                let mut m = MadView::from(md.to_string(), a.clone(), skin.clone());
                m.try_scroll_lines(scroll as i32);
                let mut o = Vec::new();
                m.write_on(&mut o).unwrap();
                outs.push(("mad view", o));
            } else if scroll == 0 {
                let mut o = Vec::new();
                skin.write_in_area_on(&mut o, md, a).unwrap();
                outs.push(("write_in_area_on", o));
            }
        })?;
        ensure!(thumb.is_some() == bar, "scrollbar", "scrollbar {thumb:?} for {height} lines in {a:?}");
        if bar { l.nontrivial(); }
        for (name, out) in outs {
            let out = String::from_utf8(out).or_else(|_| viol("utf8", "not utf8"))?;
            l.trace(h64(&out));
            let mut scr = Screen::new(w + a.left as usize + 8, h + a.top as usize + 3);
            scr.feed(&out);
            let what = format!("{name}, scroll {scroll}, scrollbar {show}");
            clean(&scr, a, &what)?;
            for j in 0..h {
                let want: Vec<(String, Sty)> = match text.lines.get(scroll + j) {
                    Some(line) => {
                        let s = DisplayableLine::new(skin, line, Some(cw)).to_string();
                        let mut r = rows(&s).or_else(|e| viol("stream", e))?;
                        ensure!(r.len() <= 1, "stream", "{what}: a line gives several rows");
                        expect_row(&r.pop().unwrap_or_default().g, cw)
                    }
                    None => vec![(" ".to_string(), sty_of(&skin.paragraph.compound_style)); cw],
                };
                ensure!(want.len() == cw, "row-width", "{what}: row {j} takes {} columns instead of {cw}", want.len());
                let y = a.top as usize + j;
                same_row(&scr, a.left as usize, y, &want, &what)?;
                if let Some((t, b)) = thumb {
                    let sc = if (t as usize..=b as usize).contains(&y) { &skin.scrollbar.thumb } else { &skin.scrollbar.track };
                    same_row(&scr, a.left as usize + cw, y, &[(sc.nude_char().to_string(), sty_of(sc.compound_style()))], &what)?;
                }
            }
        }
    } }
    Ok(())
}

//------------------------------------------------------------------ C10
#[derive(Debug, Clone, Copy, PartialEq)]
enum SOp { Set(usize), Lines(i32), Pages(f64), MPages(i32), Up, Down, PUp, PDown, Key(KeyCode, u8), Ev(KeyCode), Resize(u16, u16) }
const COUNTS: &[i32] = &[0, 1, -1, 2, -2, 3, -3, 7, -7, 1000, -1000, i32::MAX, i32::MIN, i32::MIN + 1];
fn common_ops() -> Vec<SOp> {
    let mut v: Vec<SOp> = COUNTS.iter().map(|c| SOp::Lines(*c)).collect();
    for k in [KeyCode::Up, KeyCode::Down, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Left, KeyCode::Home, KeyCode::Enter, KeyCode::Char('j')] {
        v.push(SOp::Key(k, 0)); v.push(SOp::Key(k, KeyModifiers::CONTROL.bits())); v.push(SOp::Key(k, KeyModifiers::SHIFT.bits())); v.push(SOp::Ev(k));
    }
    v
}
/// where an operation must lead: (scroll, changed ?)
fn ref_scroll(op: SOp, scroll: usize, c: usize, h: usize) -> (usize, Option<bool>) {
    let max = c.saturating_sub(h) as i128;
    let to = |d: i128| (scroll as i128 + d.clamp(-(1 << 80), 1 << 80)).clamp(0, max) as usize;
    let key = |k: KeyCode| match k { KeyCode::Up => to(-1), KeyCode::Down => to(1), KeyCode::PageUp => to(-(h as i128)), KeyCode::PageDown => to(h as i128), _ => scroll };
    match op {
        SOp::Set(n) => (n.min(max as usize), None),
        SOp::Lines(n) => (to(n as i128), None),
        SOp::MPages(n) => (to(n as i128 * h as i128), None),
        SOp::Pages(p) => { let d = p * h as f64; let d = if d < 0.0 { d.floor() } else { d.ceil() }; (to(d as i128), None) }
        SOp::Up | SOp::Down | SOp::PUp | SOp::PDown | SOp::Key(..) | SOp::Ev(_) => {
            let k = match op { SOp::Up => KeyCode::Up, SOp::Down => KeyCode::Down, SOp::PUp => KeyCode::PageUp, SOp::PDown => KeyCode::PageDown, SOp::Key(k, 0) | SOp::Ev(k) => k, _ => KeyCode::Null };
            let n = key(k);
            (n, Some(n != scroll))
        }
        SOp::Resize(..) => unreachable!(),
    }
}
struct Scroll;
#[derive(Clone, Debug)]
struct SS { c: usize, h: u16, scroll: usize }
impl Model for Scroll {
    type S = SS;
    type Op = SOp;
    fn name(&self) -> String { "text-view-scroll".into() }
    fn bounds(&self) -> String { "contents of 0..=24 lines, heights 1..=9, every reachable scroll, closed under all operations (keys with and without modifiers, events, counts up to the i32 extrema, pages including fractions, infinities)".into() }
    fn max_depth(&self) -> usize { 1000 }
    fn inits(&self) -> Vec<(String, SS)> { (0..=24).flat_map(|c| (1..=9).map(move |h| (format!("{c} lines in height {h}"), SS { c, h, scroll: 0 }))).collect() }
    fn ops(&self, _: &SS) -> Vec<SOp> {
        let mut v = common_ops();
        for n in (0..=26).chain([1 << 20, usize::MAX]) { v.push(SOp::Set(n)); }
        for p in [0.0, 1.0, -1.0, 0.5, -0.5, 0.1, -0.1, 2.0, -2.0, 1e20, -1e20, f64::INFINITY, f64::NEG_INFINITY] { v.push(SOp::Pages(p)); }
        v.extend([SOp::Up, SOp::Down, SOp::PUp, SOp::PDown]);
        v
    }
    fn key(&self, s: &SS) -> Option<u128> { Some(key128(&(s.c, s.h, s.scroll))) }
    fn step(&self, s: &SS, op: &SOp, l: &mut Local) -> Result<SS, Viol> {
        let skin = MadSkin::no_style();
        let md = vec!["x"; s.c].join("\n");
        let area = Area::new(0, 0, 10, s.h);
        let mut text = skin.area_text(&md, &area);
        text.lines.truncate(s.c);
        ensure!(text.lines.len() == s.c, "setup", "{} lines", text.lines.len());
        let mut v = TextView::from(&area, &text);
        v.scroll = s.scroll;
        let mut set_ret = None;
        let r = guard(|| match *op {
            SOp::Set(n) => { set_ret = Some(v.set_scroll(n)); None }
            SOp::Lines(n) => { v.try_scroll_lines(n); None }
            SOp::Pages(p) => { v.try_scroll_pages(p); None }
            SOp::Up => Some(v.line_up()),
            SOp::Down => Some(v.line_down()),
            SOp::PUp => Some(v.page_up()),
            SOp::PDown => Some(v.page_down()),
            SOp::Key(k, m) => Some(v.apply_key_combination(KeyEvent::new(k, KeyModifiers::from_bits_truncate(m)))),
            SOp::Ev(k) => Some(v.apply_key_event(KeyEvent::new(k, KeyModifiers::NONE))),
            _ => unreachable!(),
        })?;
        l.trace(h64(&(s.c, s.h, v.scroll)));
        let (want, changed) = ref_scroll(*op, s.scroll, s.c, s.h as usize);
        if want != s.scroll { l.nontrivial(); }
        ensure!(v.scroll == want, "scroll", "{op:?} leads from {} to {} instead of {want} ({} lines in height {})", s.scroll, v.scroll, s.c, s.h);
        ensure!(r == changed, "changed", "{op:?} returns {r:?} instead of {changed:?} from {} ({} lines in height {})", s.scroll, s.c, s.h);
        ensure!(set_ret.map_or(true, |r| r == want), "set-return", "{op:?} returns {set_ret:?} instead of {want}");
        Ok(SS { scroll: v.scroll, ..*s })
    }
}

struct Mad;
#[derive(Clone, Debug)]
struct MS { md: usize, w: u16, h: u16, scroll: usize }
const MDS: [&str; 4] = ["", "one two three", "one two three four\n* five six\n\nseven eight", "# a\nbb cc dd ee ff gg hh ii jj kk\n|l|m n o p|\n    q\nr\ns"];
impl Model for Mad {
    type S = MS;
    type Op = SOp;
    fn name(&self) -> String { "mad-view-scroll".into() }
    fn bounds(&self) -> String { format!("{MDS:?}, areas of widths 6,9,16 and heights 1,2,3,7, every reachable scroll, closed under all operations including resizes") }
    fn max_depth(&self) -> usize { 1000 }
    fn inits(&self) -> Vec<(String, MS)> { (0..MDS.len()).map(|md| (format!("text {md}"), MS { md, w: 9, h: 2, scroll: 0 })).collect() }
    fn ops(&self, _: &MS) -> Vec<SOp> {
        let mut v = common_ops();
        for p in [0, 1, -1, 2, -2, 100, -100, i32::MAX, i32::MIN] { v.push(SOp::MPages(p)); }
        for w in [6, 9, 16] { for h in [1, 2, 3, 7] { v.push(SOp::Resize(w, h)); } }
        v
    }
    fn key(&self, s: &MS) -> Option<u128> { Some(key128(&(s.md, s.w, s.h, s.scroll))) }
    fn step(&self, s: &MS, op: &SOp, l: &mut Local) -> Result<MS, Viol> {
        let skin = MadSkin::no_style();
        let area = Area::new(0, 0, s.w, s.h);
        let mut n = s.clone();
        let mut v = MadView::from(MDS[s.md].to_string(), area.clone(), skin.clone());
        v.scroll = s.scroll;
        let r = guard(|| match *op {
            SOp::Lines(n) => { v.try_scroll_lines(n); None }
            SOp::MPages(p) => { v.try_scroll_pages(p); None }
            SOp::Key(k, m) => Some(v.apply_key_combination(KeyEvent::new(k, KeyModifiers::from_bits_truncate(m)))),
            SOp::Ev(k) => Some(v.apply_key_event(KeyEvent::new(k, KeyModifiers::NONE))),
            SOp::Resize(w, h) => { v.resize(&Area::new(0, 0, w, h)); n.w = w; n.h = h; None }
            _ => unreachable!(),
        })?;
        n.scroll = v.scroll;
        l.trace(h64(&(n.md, n.w, n.h, n.scroll)));
        let count = |w: u16, h: u16| skin.area_text(MDS[s.md], &Area::new(0, 0, w, h)).lines.len();
        if let SOp::Resize(w, h) = *op {
            let c = count(w, h);
            let max = c.saturating_sub(h as usize);
            ensure!(v.scroll <= max, "resize", "after a resize to {w}x{h} the scroll is {} with only {c} lines", v.scroll);
            // kept when possible
            if w == s.w { ensure!(v.scroll == s.scroll.min(max), "resize", "resize from height {} to {h} changes the scroll from {} to {}", s.h, s.scroll, v.scroll); }
        } else {
            let (want, changed) = ref_scroll(*op, s.scroll, count(s.w, s.h), s.h as usize);
            if want != s.scroll { l.nontrivial(); }
            ensure!(v.scroll == want, "scroll", "{op:?} leads from {} to {} instead of {want} in {s:?}", s.scroll, v.scroll);
            ensure!(r == changed, "changed", "{op:?} returns {r:?} instead of {changed:?} in {s:?}");
        }
        // the view shows the text from that scroll, in the current area
        let mut o = Vec::new();
        guard(|| v.write_on(&mut o).unwrap())?;
        let area = Area::new(0, 0, n.w, n.h);
        let text = skin.area_text(MDS[s.md], &area);
        let mut tv = TextView::from(&area, &text);
        tv.scroll = n.scroll;
        let mut o2 = Vec::new();
        guard(|| tv.write_on(&mut o2).unwrap())?;
        ensure!(o == o2, "mad-paint", "the view doesn't show its text in its area");
        Ok(n)
    }
}

const LIVE: [SOp; 16] = [SOp::Lines(1), SOp::Lines(-1), SOp::Lines(3), SOp::Lines(1000), SOp::Lines(i32::MIN), SOp::Key(KeyCode::PageDown, 0), SOp::Key(KeyCode::PageUp, 0), SOp::Key(KeyCode::Down, 0), SOp::Ev(KeyCode::Up), SOp::MPages(1), SOp::MPages(-2), SOp::Resize(9, 2), SOp::Resize(9, 4), SOp::Resize(14, 4), SOp::Resize(6, 1), SOp::Key(KeyCode::Home, 0)];
/// sequences of operations on the same view: what's expected doesn't depend on what the view remembers
fn live(ctx: &Ctx) {
    let long = (0..40).map(|i| if i % 7 == 3 { format!("* item {i}") } else { format!("line {i} of the text") }).collect::<Vec<_>>().join("\n");
    let docs: Vec<String> = MDS.iter().map(|s| s.to_string()).chain([long]).collect();
    let seqs = Seqs { a: LIVE.len() as u64, min: 1, max: ctx.by(4, 5) };
    let nd = docs.len() as u64;
    ctx.family(&Fam {
        name: "live-mad-views".into(),
        bounds: format!("sequences of <= {} operations among {LIVE:?} (resizes also changing the position) on the same MadView, {nd} documents", seqs.max),
        n: seqs.len() * nd,
        d: |i| json!({"doc": docs[(i % nd) as usize], "ops": format!("{:?}", seqs.get(i / nd).into_iter().map(|k| LIVE[k]).collect::<Vec<_>>())}),
        c: |i, l: &mut Local| {
            let md = &docs[(i % nd) as usize];
            let skin = MadSkin::no_style();
            let mut area = Area::new(2, 1, 9, 3);
            let mut v = MadView::from(md.clone(), area.clone(), skin.clone());
            let mut scroll = 0;
            for k in seqs.get(i / nd) {
                let op = LIVE[k];
                let r = guard(|| match op {
                    SOp::Lines(n) => { v.try_scroll_lines(n); None }
                    SOp::MPages(p) => { v.try_scroll_pages(p); None }
                    SOp::Key(k, m) => Some(v.apply_key_combination(KeyEvent::new(k, KeyModifiers::from_bits_truncate(m)))),
                    SOp::Ev(k) => Some(v.apply_key_event(KeyEvent::new(k, KeyModifiers::NONE))),
                    SOp::Resize(w, h) => { v.resize(&Area::new(w - 5, h, w, h)); None }
                    _ => unreachable!(),
                })?;
                let c = |a: &Area| skin.area_text(md, a).lines.len();
                if let SOp::Resize(w, h) = op {
                    let same = w == area.width;
                    area = Area::new(w - 5, h, w, h);
                    let max = c(&area).saturating_sub(h as usize);
                    ensure!(v.scroll <= max, "resize", "after {op:?} the scroll is {} instead of at most {max}", v.scroll);
                    if same { ensure!(v.scroll == scroll.min(max), "resize", "{op:?} changes the scroll from {scroll} to {} (max {max})", v.scroll); }
                } else {
                    let (want, changed) = ref_scroll(op, scroll, c(&area), area.height as usize);
                    if want != scroll { l.nontrivial(); }
                    ensure!(v.scroll == want, "scroll", "{op:?} leads from {scroll} to {} instead of {want}", v.scroll);
                    ensure!(r == changed, "changed", "{op:?} returns {r:?} instead of {changed:?}");
                }
                scroll = v.scroll;
            }
            let mut o = Vec::new();
            guard(|| v.write_on(&mut o).unwrap())?;
            let text = skin.area_text(md, &area);
            let mut tv = TextView::from(&area, &text);
            tv.scroll = scroll;
            let mut o2 = Vec::new();
            guard(|| tv.write_on(&mut o2).unwrap())?;
            ensure!(o == o2, "mad-paint", "the view doesn't show its text in its area");
            l.trace(h64(&o));
            Ok(())
        },
    });
    // the same text view, with a long text
    const OPS: [SOp; 14] = [SOp::Lines(1), SOp::Lines(-1), SOp::Lines(5), SOp::Lines(1000), SOp::Lines(-1000), SOp::Pages(1.0), SOp::Pages(-1.0), SOp::Pages(0.3), SOp::Pages(-2.5), SOp::Set(17), SOp::PUp, SOp::PDown, SOp::Up, SOp::Key(KeyCode::Down, 0)];
    let sizes: Vec<(usize, u16)> = [0usize, 1, 19, 20, 21, 100, 70_000].into_iter().flat_map(|c| [1u16, 2, 7, 20].map(|h| (c, h))).collect();
    let seqs = Seqs { a: OPS.len() as u64, min: 1, max: ctx.by(3, 4) };
    let ns = sizes.len() as u64;
    let skin = MadSkin::no_style();
    let texts: std::collections::HashMap<usize, FmtText> = sizes.iter().map(|(c, _)| *c).collect::<std::collections::BTreeSet<_>>().into_iter().map(|c| { let mut t = FmtText::from(&skin, "x", Some(20)); let l = t.lines.pop().unwrap(); t.lines.clear(); t.lines.resize_with(c, || match &l { FmtLine::Normal(f) => FmtLine::Normal(f.clone()), _ => unreachable!() }); (c, t) }).collect();
    let texts = Shared(texts);
    ctx.family(&Fam {
        name: "live-text-views".into(),
        bounds: format!("sequences of <= {} operations among {OPS:?} on the same TextView, sizes {sizes:?}", seqs.max),
        n: seqs.len() * ns,
        d: |i| json!({"size": sizes[(i % ns) as usize], "ops": format!("{:?}", seqs.get(i / ns).into_iter().map(|k| OPS[k]).collect::<Vec<_>>())}),
        c: |i, l: &mut Local| {
            let (c, h) = sizes[(i % ns) as usize];
            let area = Area::new(0, 0, 10, h);
            let t = &texts;
            let mut v = TextView::from(&area, &t.0[&c]);
            let mut scroll = 0;
            for k in seqs.get(i / ns) {
                let op = OPS[k];
                let r = guard(|| match op {
                    SOp::Set(n) => { v.set_scroll(n); None }
                    SOp::Lines(n) => { v.try_scroll_lines(n); None }
                    SOp::Pages(p) => { v.try_scroll_pages(p); None }
                    SOp::Up => Some(v.line_up()),
                    SOp::PUp => Some(v.page_up()),
                    SOp::PDown => Some(v.page_down()),
                    SOp::Key(k, m) => Some(v.apply_key_combination(KeyEvent::new(k, KeyModifiers::from_bits_truncate(m)))),
                    _ => unreachable!(),
                })?;
                let (want, changed) = ref_scroll(op, scroll, c, h as usize);
                if want != scroll { l.nontrivial(); }
                ensure!(v.scroll == want, "scroll", "{op:?} leads from {scroll} to {} instead of {want} ({c} lines in height {h})", v.scroll);
                ensure!(r == changed, "changed", "{op:?} returns {r:?} instead of {changed:?}");
                scroll = v.scroll;
            }
            l.trace(h64(&(c, h, scroll)));
            Ok(())
        },
    });
}
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}

//------------------------------------------------------------------ C11
fn scrollbars(ctx: &Ctx) {
    let (maxc, maxh) = ctx.by((300u64, 120u64), (1200, 300));
    let tops = [0usize, 1, 7, 60000];
    ctx.family(&Fam {
        name: "scrollbar".into(),
        bounds: format!("contents of 0..={maxc} lines, heights 0..={maxh}, all scrolls, tops {tops:?}"),
        n: (maxc + 1) * (maxh + 1),
        d: |i| json!({"content": i / (maxh + 1), "height": i % (maxh + 1)}),
        c: |i, l: &mut Local| {
            let (c, h) = ((i / (maxh + 1)) as usize, (i % (maxh + 1)) as usize);
            for top in tops { one_scrollbar(c, h, top, 1, l)?; }
            Ok(())
        },
    });
    // big contents
    let cs: Vec<usize> = vec![999, 65534, 65535, 65536, 65537, 65540, 65600, 70000, 131071, 131072, 131080, 1 << 20, 1 << 31, (1 << 32) + 1, 1 << 33, (1 << 40) + 3, 1 << 52, usize::MAX / 3, usize::MAX];
    ctx.family(&Fam {
        name: "scrollbar-big".into(),
        bounds: format!("contents of {cs:?} lines, heights 1..=60 and 255, 1000 (and scrolls up to usize::MAX), scrolls by 1/997 of the content and around the bounds"),
        n: cs.len() as u64 * 62,
        d: |i| json!({"content": cs[i as usize / 62], "height": i % 62}),
        c: |i, l: &mut Local| {
            let h = match i % 62 { 60 => 255usize, 61 => 1000, k => k as usize + 1 };
            let c = cs[i as usize / 62];
            one_scrollbar(c, h, 3, (c / 997).max(1), l)
        },
    });
    // the views
    let skin = MadSkin::no_style();
    let n = ctx.by(65541, 262200);
    let md = "x\n".repeat(n);
    let text = skin.text(&md, Some(9));
    let hs = [1u16, 2, 5, 20, 100];
    ctx.family(&Fam {
        name: "scrollbar-views".into(),
        bounds: format!("TextView of {n} lines and prefixes of 0..=70 lines, heights {hs:?}"),
        n: 72 * hs.len() as u64,
        d: |i| json!({"content": i / 5, "height": hs[(i % 5) as usize]}),
        c: |i, l: &mut Local| {
            let h = hs[(i % 5) as usize];
            let c = (i / 5) as usize;
            let small = skin.area_text(&md[..c.min(70) * 2], &Area::new(0, 0, 10, h));
            let t = if c == 71 { &text } else { &small };
            let cnt = t.lines.len();
            let area = Area::new(2, 4, 10, h);
            let scrolls: Vec<usize> = if cnt > 1000 { vec![0, 1, 4, 5, cnt / 2, 65535, 65536, cnt - h as usize - 1, cnt - h as usize] } else { (0..=cnt.saturating_sub(h as usize)).collect() };
            for s in scrolls {
                let mut v = TextView::from(&area, t);
                let s = v.set_scroll(s);
                let got = guard(|| v.scrollbar())?;
                l.trace(h64(&got));
                geometry(got.map(|(a, b)| (a as usize, b as usize)), s, cnt, h as usize, 4)?;
                v.show_scrollbar = false;
                ensure!(v.scrollbar().is_none(), "hidden", "a hidden scrollbar is {:?}", v.scrollbar());
            }
            Ok(())
        },
    });
}
pub fn geometry(got: Option<(usize, usize)>, s: usize, c: usize, h: usize, top: usize) -> Res {
    let what = format!("scrollbar {got:?} for scroll {s}, {c} lines, height {h}, top {top}");
    if c <= h || h == 0 { ensure!(got.is_none(), "bar-needless", "{what}: there should be none"); return Ok(()); }
    let Some((t, b)) = got else { return viol("bar-missing", what) };
    ensure!(t <= b, "bar-order", "{what}: bounds reversed");
    ensure!(t >= top && b < top + h, "bar-outside", "{what}: outside of the track");
    let last = top + h - 1;
    if s == 0 { ensure!(t == top, "bar-top", "{what}: not at the top while not scrolled"); }
    else if h > 1 { ensure!(t > top, "bar-top", "{what}: at the top while scrolled"); }
    if s >= c - h { ensure!(b == last, "bar-bottom", "{what}: not at the bottom while scrolled to the end"); }
    else if h > 3 { ensure!(b < last || t == last, "bar-bottom", "{what}: reaches the bottom while not scrolled to the end"); }
    let len = b - t + 1;
    let ideal = (h as f64) * (h as f64) / (c as f64);
    ensure!((len as f64) < ideal + 2.0 && len as f64 + 2.0 > ideal, "bar-length", "{what}: length {len} far from {ideal}");
    let pos = s as f64 * h as f64 / c as f64;
    ensure!(((t - top) as f64 - pos).abs() <= 1.0, "bar-position", "{what}: position far from {pos}");
    Ok(())
}
fn one_scrollbar(c: usize, h: usize, top: usize, step: usize, l: &mut Local) -> Res {
    let max = c.saturating_sub(h);
    let mut prev: Option<(usize, usize)> = None;
    let mut s = 0;
    while s <= max {
        let got = guard(|| compute_scrollbar(s, c, h, top))?;
        if got.is_some() { l.nontrivial(); }
        l.trace(h64(&(got, c, h)));
        geometry(got, s, c, h, top)?;
        if let (Some(p), Some(g)) = (prev, got) { ensure!(g.0 >= p.0 && g.1 >= p.1, "bar-monotone", "{c} lines in {h}: scrolling to {s} moves the thumb up: {p:?} -> {g:?}"); }
        prev = got;
        let area = Area::new(0, top as u16, 10, h as u16);
        let a = guard(|| area.scrollbar(s, c))?;
        ensure!(a.map(|(x, y)| (x as usize, y as usize)) == got, "bar-area", "Area::scrollbar gives {a:?} instead of {got:?}");
        if c < 60000 {
            let b: Option<(u16, u16)> = guard(|| compute_scrollbar(s as u16, c as u16, h as u16, top as u16))?;
            ensure!(b.map(|(x, y)| (x as usize, y as usize)) == got, "bar-type", "compute_scrollbar with u16 gives {b:?} instead of {got:?}");
        }
        if s == max { break; }
        s = s.saturating_add(step).min(max);
    }
    // scrolls after the end
    for s in [max.saturating_add(1), max.saturating_add(h), c, c.saturating_mul(2).saturating_add(7), usize::MAX - h, usize::MAX] {
        if s <= max { continue; }
        let got = guard(|| compute_scrollbar(s, c, h, top))?;
        if let Some((t, b)) = got { ensure!(t <= b && t >= top && b < top + h, "bar-outside", "scrollbar {got:?} for scroll {s}, {c} lines, height {h}, top {top}: outside of the track"); }
        ensure!(got.is_some() == (c > h && h > 0), "bar-missing", "scrollbar {got:?} for scroll {s}, {c} lines, height {h}, top {top}");
    }
    Ok(())
}
