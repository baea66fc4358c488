//! ListView: rows, filter, sort, selection and scroll (C15), painting (C16)
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use crate::props::views::{clean, expect_row, same_row};
use serde_json::json;
use std::sync::OnceLock;
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

pub fn run(ctx: &Ctx) {
    match ctx.property.as_str() {
        "C15" => {
            for sorted in [false, true] {
                ctx.bfs(&Lists { sorted, max_rows: ctx.by(6, 7), nkeys: ctx.by(3, 3), heights: ctx.by(&[3, 4, 5, 6, 8], &[3, 4, 5, 6, 7, 8]), starts: &[0], depth: 60 });
                // long lists, from which a few operations are done
                ctx.bfs(&Lists { sorted, max_rows: 302, nkeys: 3, heights: &[10, 24], starts: &[31, 300], depth: ctx.by(3, 4) });
                ctx.bfs(&Lists { sorted, max_rows: if sorted { 4097 } else { 65540 }, nkeys: 3, heights: &[7, 60], starts: if sorted { &[4096] } else { &[65537] }, depth: 2 });
            }
        }
        _ => paint(ctx),
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug)]
enum Op { Add(u8), Clear, Filter(u8), NoFilter, Lines(i32), Pages(i32), Bottom, Next(bool), First, Last, Unselect, Height(u16), Visible }
#[derive(Clone)]
struct Item { key: u8, id: usize }
/// the reference list
#[derive(Clone)]
struct L { hist: Vec<Op>, rows: Vec<Item>, next_id: usize, filter: Option<u8>, sel: Option<usize>, scroll: usize, height: u16 }
impl L {
    fn shown(&self, k: u8) -> bool { self.filter.map_or(true, |f| passes(f, k)) }
    fn displayed(&self) -> Vec<usize> { self.rows.iter().filter(|r| self.shown(r.key)).map(|r| r.id).collect() }
    fn tb(&self) -> usize { self.height as usize - 2 }
    fn rank(&self, id: usize) -> Option<usize> { self.displayed().iter().position(|&i| i == id) }
}
/// filters: 0 = keys 0, 1 = keys other than 0, 2 = nothing
fn passes(f: u8, k: u8) -> bool { match f { 0 => k == 0, 1 => k != 0, _ => false } }
struct Lists { sorted: bool, max_rows: usize, nkeys: u8, heights: &'static [u16], starts: &'static [usize], depth: usize }

impl Lists {
    fn apply(lv: &mut ListView<'_, Item>, op: &Op, next_id: &mut usize) {
        match op {
            Op::Add(k) => { lv.add_row(Item { key: *k, id: *next_id }); *next_id += 1; }
            Op::Clear => { lv.clear_rows(); }
            Op::Filter(f) => { let f = *f; lv.set_filter(Box::new(move |it| passes(f, it.key))); }
            Op::NoFilter => lv.remove_filter(),
            Op::Lines(n) => lv.try_scroll_lines(*n),
            Op::Pages(n) => lv.try_scroll_pages(*n),
            Op::Bottom => lv.scroll_to_bottom(),
            Op::Next(up) => lv.try_select_next(*up),
            Op::First => lv.select_first_line(),
            Op::Last => lv.select_last_line(),
            Op::Unselect => lv.unselect(),
            Op::Visible => lv.make_selection_visible(),
            Op::Height(h) => { lv.area.height = *h; lv.update_dimensions(); }
        }
    }
    /// rebuild the real list, apply the operation, and give what can be observed
    fn observe(&self, hist: &[Op], op: Option<&Op>) -> Result<Obs, Viol> {
        static SKIN: OnceLock<(MadSkin, CompoundStyle)> = OnceLock::new();
        let (skin, style) = SKIN.get_or_init(|| (MadSkin::no_style(), CompoundStyle::default()));
        let height = match hist.first() { Some(Op::Height(h)) => *h, _ => self.heights[0] };
        let st = style;
        let cols = vec![ListViewColumn::new("t", 7, 7, Box::new(move |it: &Item| ListViewCell::new(format!("r{}", it.id), st)))];
        let mut lv = ListView::new(Area::new(1, 1, 9, height), cols, skin);
        if self.sorted { lv.sort(Box::new(|a: &Item, b: &Item| a.key.cmp(&b.key))); }
        let mut next_id = 0;
        guard(|| for o in hist { Self::apply(&mut lv, o, &mut next_id); })?;
        if let Some(op) = op { guard(|| Self::apply(&mut lv, op, &mut next_id))?; }
        let mut v = Vec::new();
        guard(|| lv.write_on(&mut v).unwrap())?;
        let out = String::from_utf8(v).unwrap();
        let mut scr = Screen::new(12, 1 + lv.area.height as usize + 1);
        scr.feed(&out);
        let mut labels = Vec::new();
        let mut highlighted = Vec::new();
        for y in 2..lv.area.height as usize {
            let t = scr.row_text(1, 1 + y, 7);
            labels.push(t.trim().to_string());
            if scr.at(1, 1 + y).map_or(false, |c| !c.st.plain()) { highlighted.push(y - 2); }
        }
        let sel = lv.get_selection().map(|i| i.id);
        ensure!(sel.is_some() == lv.has_selection(), "selection", "has_selection isn't coherent with get_selection");
        let (counts, bottom, tb) = (lv.row_counts(), lv.do_scroll_show_bottom(), lv.tbody_height() as usize);
        Ok(Obs { labels, highlighted, sel, counts, bottom, tb })
    }
}
struct Obs { labels: Vec<String>, highlighted: Vec<usize>, sel: Option<usize>, counts: (usize, usize), bottom: bool, tb: usize }

impl Model for Lists {
    type S = L;
    type Op = Op;
    fn name(&self) -> String { format!("{}list-{}", match self.starts { [0] => "", [31, ..] => "long-", _ => "very-long-" }, if self.sorted { "sorted" } else { "unsorted" }) }
    fn bounds(&self) -> String { format!("lists of <= {} rows with {} keys, starting with {:?} rows, heights {:?}, 3 filters; additions, clear, filters, scrolls by lines and pages (extreme counts too), selections, resizes, {}", self.max_rows, self.nkeys, self.starts, self.heights, if self.depth == 60 { "until closure".to_string() } else { format!("sequences of <= {} operations", self.depth) }) }
    fn inits(&self) -> Vec<(String, L)> {
        self.heights.iter().flat_map(|h| self.starts.iter().map(move |n| {
            let mut s = L { hist: vec![Op::Height(*h)], rows: vec![], next_id: 0, filter: None, sel: None, scroll: 0, height: *h };
            for id in 0..*n {
                let key = (id % 5 % 3) as u8;
                s.hist.push(Op::Add(key));
                let pos = if self.sorted { s.rows.partition_point(|r| r.key <= key) } else { s.rows.len() };
                s.rows.insert(pos, Item { key, id });
            }
            s.next_id = *n;
            // adding rows without sort keeps the bottom displayed
            if !self.sorted { s.scroll = n.saturating_sub(s.tb()); }
            (if *n == 0 { format!("empty, height {h}") } else { format!("{n} rows, height {h}") }, s)
        })).collect()
    }
    fn ops(&self, s: &L) -> Vec<Op> {
        let mut v = vec![Op::Clear, Op::Filter(0), Op::Filter(1), Op::Filter(2), Op::NoFilter, Op::Bottom, Op::Next(true), Op::Next(false), Op::First, Op::Last, Op::Unselect, Op::Visible];
        if s.rows.len() < self.max_rows { for k in 0..self.nkeys { v.push(Op::Add(k)); } }
        for n in [1, 2, -1, -2, i32::MAX, i32::MIN] { v.push(Op::Lines(n)); }
        if self.depth < 60 { v.extend([Op::Lines(100), Op::Lines(-40_000), Op::Pages(2)]); }
        for n in [1, -1, 0, i32::MAX, i32::MIN] { v.push(Op::Pages(n)); }
        for h in self.heights { if *h != s.height { v.push(Op::Height(*h)); } }
        v
    }
    fn max_depth(&self) -> usize { self.depth }
    fn key(&self, s: &L) -> Option<u128> {
        let keys: Vec<u8> = s.rows.iter().map(|r| r.key).collect();
        Some(key128(&(keys, s.filter, s.sel.map(|i| s.rows.iter().position(|r| r.id == i)), s.scroll, s.height)))
    }
    fn step(&self, s: &L, op: &Op, l: &mut Local) -> Result<L, Viol> {
        let o = self.observe(&s.hist, Some(op))?;
        let mut n = s.clone();
        n.hist.push(op.clone());
        let mut makes_visible = false;
        let tb = s.tb();
        let cnt = s.displayed().len();
        let showed_bottom = s.scroll + tb >= cnt;
        let mut base = Some(s.scroll); // expected scroll before the selection is made visible
        match op {
            Op::Add(k) => {
                let pos = if self.sorted { s.rows.iter().position(|r| r.key > *k).unwrap_or(s.rows.len()) } else { s.rows.len() };
                n.rows.insert(pos, Item { key: *k, id: s.next_id });
                n.next_id += 1;
                if !self.sorted && showed_bottom { base = None; }
            }
            Op::Clear => { n.rows.clear(); n.sel = None; base = Some(0); }
            Op::Filter(f) => { n.filter = Some(*f); base = Some(0); }
            Op::NoFilter => n.filter = None,
            Op::Lines(c) => { base = Some(scrolled(s, *c as i64)); makes_visible = true; }
            Op::Pages(c) => { base = Some(scrolled(s, *c as i64 * tb as i64)); makes_visible = true; }
            Op::Bottom => base = Some(cnt.saturating_sub(tb)),
            Op::Next(up) => {
                let d = s.displayed();
                if !d.is_empty() {
                    makes_visible = true;
                    n.sel = Some(match s.sel {
                        None => *d.get(s.scroll).unwrap_or(&d[0]),
                        Some(id) => {
                            let p = s.rows.iter().position(|r| r.id == id).unwrap();
                            let m = s.rows.len();
                            (1..=m).map(|i| if *up { (p + m - i) % m } else { (p + i) % m }).map(|i| &s.rows[i]).find(|r| s.shown(r.key)).unwrap().id
                        }
                    });
                }
            }
            Op::First => { n.sel = s.displayed().first().copied(); makes_visible = true; }
            Op::Last => { n.sel = s.displayed().last().copied(); makes_visible = true; }
            Op::Unselect => n.sel = None,
            Op::Visible => makes_visible = true,
            Op::Height(h) => { n.height = *h; }
        }
        let d = n.displayed();
        let tb = n.tb();
        ensure!(o.tb == tb, "height", "{op:?}: tbody_height is {} instead of {tb}", o.tb);
        ensure!(o.counts == (d.len(), n.rows.len()), "counts", "{op:?}: row_counts gives {:?} instead of {:?}", o.counts, (d.len(), n.rows.len()));
        ensure!(o.sel == n.sel, "selection", "{op:?}: selected row is {:?} instead of {:?} (rows {:?}, displayed {d:?})", o.sel, n.sel, n.rows.iter().map(|r| r.id).collect::<Vec<_>>());
        // what's displayed
        let scroll = match o.labels[0].strip_prefix('r').and_then(|x| x.parse::<usize>().ok()) {
            Some(id) => match d.iter().position(|&i| i == id) { Some(r) => r, None => return viol("rows", format!("{op:?}: row {id} is displayed while it shouldn't ({d:?})")) },
            None => d.len(),
        };
        let want: Vec<String> = (0..tb).map(|j| d.get(scroll + j).map_or(String::new(), |id| format!("r{id}"))).collect();
        ensure!(o.labels == want, "rows", "{op:?}: displayed rows are {:?} instead of {want:?}", o.labels);
        let hl: Vec<usize> = n.sel.and_then(|id| n.rank(id)).filter(|r| *r >= scroll && *r < scroll + tb).map(|r| r - scroll).into_iter().collect();
        ensure!(o.highlighted == hl, "highlight", "{op:?}: highlighted rows are {:?} instead of {hl:?}", o.highlighted);
        ensure!(o.bottom == (scroll + tb >= d.len()), "bottom", "{op:?}: do_scroll_show_bottom() is {} with scroll {scroll}, {tb} rows of {}", o.bottom, d.len());
        // the scroll
        let max = if d.len() > tb { d.len() - tb + 1 } else { 0 };
        match base {
            None => ensure!(o.bottom && scroll <= s.scroll.max(d.len().saturating_sub(tb)), "stick", "{op:?}: the bottom was displayed and isn't anymore (scroll {} -> {scroll})", s.scroll),
            Some(b) => match n.sel.and_then(|id| n.rank(id)).filter(|_| makes_visible) {
                _ if makes_visible && d.len() <= tb => ensure!(scroll == 0, "scroll", "{op:?}: scroll is {scroll} while all rows fit"),
                None => ensure!(scroll == b, "scroll", "{op:?}: scroll is {scroll} instead of {b}"),
                Some(r) => {
                    ensure!(r >= scroll && r < scroll + tb, "selection-visible", "{op:?}: the selected row (displayed row {r}) isn't visible with scroll {scroll} in {tb} rows");
                    // (a resize may leave the scroll over the maximum, until it's scrolled)
                    let over = if matches!(op, Op::Lines(n) | Op::Pages(n) if *n >= 0) { max } else { max.max(s.scroll) };
                    ensure!(scroll <= over, "scroll", "{op:?}: scroll {scroll} is over {over}");
                    if r > b && r + 1 < b + tb { ensure!(scroll == b, "scroll", "{op:?}: scroll is {scroll} instead of {b}, which shows the selection"); }
                    else {
                        let near = if r < b { r } else if r + 1 > b + tb { r + 1 - tb } else { b };
                        ensure!(scroll.abs_diff(near) <= 2, "scroll", "{op:?}: scroll is {scroll} while {near} would show the selection");
                    }
                }
            },
        }
        n.scroll = scroll;
        if scroll != s.scroll || n.sel != s.sel { l.nontrivial(); }
        l.trace(h64(&(format!("{op:?}"), o.labels, o.sel, o.counts)));
        Ok(n)
    }
}
fn scrolled(s: &L, by: i64) -> usize {
    let (c, tb) = (s.displayed().len(), s.tb());
    let max = if c > tb { c - tb + 1 } else { 0 };
    if by < 0 { (s.scroll as i64 + by).max(0) as usize } else { (s.scroll as i64 + by).min(max as i64) as usize }
}

// ---------------------------------------------------------------- C16

const CELLS: &[&str] = &["", "a", "bcd", "efghij", "漢字"];
struct Cfg { titles: &'static [&'static str], mins: &'static [usize], maxs: &'static [usize], aligns: &'static [Alignment] }
use Alignment::*;
const CFGS: &[Cfg] = &[
    Cfg { titles: &["t"], mins: &[3], maxs: &[6], aligns: &[Left] },
    Cfg { titles: &["name"], mins: &[1], maxs: &[3], aligns: &[Right] },
    Cfg { titles: &["a", "bcd"], mins: &[2, 3], maxs: &[4, 3], aligns: &[Center, Right] },
    Cfg { titles: &["漢字", "漢字"], mins: &[1, 2], maxs: &[3, 5], aligns: &[Left, Unspecified] },
    Cfg { titles: &["x", "x", "y"], mins: &[2, 2, 2], maxs: &[4, 2, 9], aligns: &[Right, Center, Left] },
    Cfg { titles: &["x", "y", "x"], mins: &[1, 1, 1], maxs: &[2, 2, 2], aligns: &[Center, Center, Center] },
    Cfg { titles: &["", "long title", "long title", "long title"], mins: &[2, 1, 1, 1], maxs: &[2, 3, 4, 5], aligns: &[Left, Right, Center, Left] },
];

/// a list to be painted
struct Paint { cfg: &'static Cfg, width: u16, height: u16, nrows: usize, scroll: usize, sel: usize, hidden: Vec<bool>, filtered: bool, text: fn(usize, usize, usize) -> String, first: usize }

fn paint(ctx: &Ctx) {
    let mut sk = skins().into_iter().take(2).collect::<Vec<_>>();
    sk.push(("default".into(), MadSkin::default()));
    let sk: &'static [(String, MadSkin)] = Box::leak(sk.into_boxed_slice());
    let mut cs = CompoundStyle::with_fgbg(Color::Red, Color::Blue);
    cs.add_attr(Attribute::Bold);
    let styles: [&'static CompoundStyle; 2] = [Box::leak(Box::new(cs)), Box::leak(Box::new(CompoundStyle::default()))];
    let rows = ctx.by(4usize, 6);
    let heights: &[u16] = ctx.by(&[3, 4, 5, 7], &[3, 4, 5, 6, 7, 9]);
    let nw = ctx.by(9u64, 14);
    // config, extra width, height index, number of rows, scroll, selection, first cell, positions
    for filtered in [false, true] {
    let masks = if filtered { 1u64 << rows } else { 1 };
    let nw = if filtered { 2 } else { nw };
    let nfirst = if filtered { 1 } else { CELLS.len() as u64 };
    let dims = [CFGS.len() as u64, nw, heights.len() as u64, rows as u64 + 1, rows as u64 + 2, rows as u64 + 1, nfirst, masks];
    let n: u64 = dims.iter().product();
    let split = move |mut i: u64| { let mut v = [0usize; 8]; for k in 0..8 { v[k] = (i % dims[k]) as usize; i /= dims[k]; } v };
    ctx.family(&Fam {
        name: if filtered { "list-paint-filtered".into() } else { "list-paint".into() },
        bounds: format!("{} column sets (merged titles, 4 alignments, wide chars), {nw} widths from the minimal one, without update_dimensions, with it, and with it after another bigger or smaller area, heights {heights:?}, 0..={rows} rows{}, all scrolls, all selections, 3 skins, 2 positions", CFGS.len(), if filtered { ", all subsets of hidden rows" } else { "" }),
        n,
        d: |i| json!({"config,extra width,height,rows,scroll,selection,first cell,hidden": split(i).to_vec(), "heights": heights}),
        c: |i, l: &mut Local| {
            let [ci, ew, hi, nrows, scroll, sel, first, hidden] = split(i);
            if hidden >> nrows != 0 { return Ok(()); }
            let cfg = &CFGS[ci];
            check_paint(&Paint {
                cfg,
                width: (cfg.mins.iter().sum::<usize>() + cfg.titles.len() + ew) as u16,
                height: heights[hi],
                nrows, scroll, sel, first, filtered,
                hidden: (0..nrows).map(|r| hidden >> r & 1 == 1).collect(),
                text: |first, r, c| CELLS[(first + r * 2 + c) % CELLS.len()].to_string(),
            }, sk, styles, l)
        },
    });
    }
    // big lists
    let cfgs: &'static [Cfg] = Box::leak(big_cfgs().into_boxed_slice());
    let ews: &'static [usize] = &[0, 1, 7, 60, 200, 1000];
    let rows: &'static [usize] = ctx.by(&[0, 99, 300], &[0, 30, 98, 99, 100, 300, 1000]);
    let heights: &'static [u16] = &[9, 100];
    let moves: &'static [(usize, usize)] = &[(0, 0), (1, 1), (150, 0), (201, 201), (1000, 300), (29, 140)];
    let mr = [cfgs.len(), ews.len(), rows.len(), heights.len(), moves.len(), 2];
    let split = move |i: u64| { let mut m = Mixed(i); mr.map(|n| m.take(n)) };
    ctx.family(&Fam {
        name: "list-paint-big".into(),
        bounds: format!("{} column sets of up to 40 columns and cells of up to 70 chars, extra widths {ews:?}, rows {rows:?}, heights {heights:?}, (scroll, selection) {moves:?}, one row over three hidden or not", cfgs.len()),
        n: mr.iter().product::<usize>() as u64,
        d: |i| json!({"config,extra width,rows,height,move,filtered": split(i)}),
        c: |i, l: &mut Local| {
            let v = split(i);
            let cfg = &cfgs[v[0]];
            let nrows = rows[v[2]];
            check_paint(&Paint {
                cfg,
                width: (cfg.mins.iter().sum::<usize>() + cfg.titles.len() + ews[v[1]]) as u16,
                height: heights[v[3]],
                nrows, scroll: moves[v[4]].0, sel: moves[v[4]].1, first: 0, filtered: v[5] == 1,
                hidden: (0..nrows).map(|r| v[5] == 1 && r % 3 == 1).collect(),
                text: |_, r, c| { let n = (r * 7 + c * 13) % 71; "abc漢defghij".chars().cycle().skip(r + c).take(n).collect() },
            }, sk, styles, l)
        },
    });
}
fn big_cfgs() -> Vec<Cfg> {
    fn lk<T>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }
    let als = [Left, Center, Right, Unspecified];
    let mut r = Vec::new();
    for nc in [12usize, 40] { for (k, span) in [1usize, 5].iter().enumerate() {
        let titles = (0..nc).map(|c| &*Box::leak(format!("title {}", c / span).into_boxed_str())).collect();
        r.push(Cfg { titles: lk(titles), mins: lk((0..nc).map(|c| 1 + c % 3).collect()), maxs: lk((0..nc).map(|c| if k == 0 { 3 + c % 50 } else { 30 }).collect()), aligns: lk((0..nc).map(|c| als[c % 4]).collect()) });
    } }
    r.push(Cfg { titles: lk(vec!["a very long title which is centered when there's place for it"]), mins: lk(vec![3]), maxs: lk(vec![700]), aligns: lk(vec![Center]) });
    r.push(Cfg { titles: lk(vec!["a", "b"]), mins: lk(vec![40, 300]), maxs: lk(vec![300, 301]), aligns: lk(vec![Right, Left]) });
    r
}
fn check_paint(p: &Paint, sk: &[(String, MadSkin)], styles: [&'static CompoundStyle; 2], l: &mut Local) -> Res {
            let Paint { cfg, width, height, nrows, scroll, sel, filtered, first, .. } = *p;
            let hidden = &p.hidden;
            let nc = cfg.titles.len();
            let all: Vec<usize> = (0..nrows).collect();
            // rows which are displayed
            let shown: Vec<usize> = all.iter().copied().filter(|r| !hidden[*r]).collect();
            let nr = shown.len();
            for (si, (_, skin)) in sk.iter().enumerate() { for (left, top) in [(0u16, 0u16), (4, 3)] { for dim in 0..4 {
                let dimensioned = dim > 0;
                if dim != 1 && (si > 0 || left > 0) { continue; }
                let area = Area::new(left, top, width, height);
                let cols: Vec<ListViewColumn<'_, Vec<String>>> = (0..nc).map(|c| {
                    let st = styles[c % 2];
                    ListViewColumn::new(cfg.titles[c], cfg.mins[c], cfg.maxs[c], Box::new(move |r: &Vec<String>| ListViewCell::new(r[c].clone(), st))).with_align(cfg.aligns[c])
                }).collect();
                let data: Vec<Vec<String>> = (0..nrows).map(|r| (0..nc).map(|c| (p.text)(first, r, c)).chain([r.to_string()]).collect()).collect();
                let mut lv = ListView::new(area.clone(), cols, skin);
                if dim > 1 {
                    lv.area = Area::new(1, 0, if dim == 2 { width + 9 } else { width - 1 }, 4);
                    guard(|| lv.update_dimensions())?;
                    lv.area = area.clone();
                }
                if dimensioned { guard(|| lv.update_dimensions())?; }
                // a filter set before or after the rows
                let hid = hidden.clone();
                let filter = move |r: &Vec<String>| !hid[r[nc].parse::<usize>().unwrap()];
                let before = (left + width) % 2 == 0;
                if filtered && before { lv.set_filter(Box::new(filter.clone())); }
                guard(|| { for r in &data { lv.add_row(r.clone()); } })?;
                if filtered && !before { lv.set_filter(Box::new(filter)); }
                // a selection, then the wanted scroll if the selection allows it
                let mut chosen = None;
                guard(|| {
                    lv.try_scroll_lines(i32::MIN);
                    if sel > 0 && sel <= nr { lv.select_first_line(); for _ in 1..sel { lv.try_select_next(false); } chosen = Some(shown[sel - 1]); }
                    lv.try_scroll_lines(i32::MIN);
                    lv.try_scroll_lines(scroll as i32);
                })?;
                let mut v = Vec::new();
                guard(|| lv.write_on(&mut v).unwrap())?;
                let out = String::from_utf8(v).unwrap();
                l.trace(h64(&out));
                let mut scr = Screen::new((left + width) as usize + 3, (top + area.height) as usize + 3);
                scr.feed(&out);
                let what = format!("{out:?}");
                clean(&scr, &area, &what)?;
                let (x0, y0, w) = (left as usize, top as usize, width as usize);
                let ts = sty_of(&skin.table.compound_style);
                // the separator gives the widths of the columns
                let sep: Vec<char> = (0..w).map(|x| scr.at(x0 + x, y0 + 1).unwrap().s.chars().next().unwrap_or(' ')).collect();
                let end = sep.iter().position(|c| *c == ' ').unwrap_or(w);
                let mut widths = Vec::new();
                let mut joins = Vec::new();
                let mut cur = 0;
                for c in &sep[..end] { match c { '─' => cur += 1, c => { widths.push(cur); cur = 0; joins.push(*c); } } }
                widths.push(cur);
                ensure!(widths.len() == nc, "separator", "{} columns in the separator instead of {nc}: {what}", widths.len());
                let wjoins: Vec<char> = (1..nc).map(|c| if cfg.titles[c] == cfg.titles[c - 1] { '┬' } else { '┼' }).collect();
                ensure!(joins == wjoins, "separator", "junctions of the separator are {joins:?} instead of {wjoins:?}: {what}");
                let total = widths.iter().sum::<usize>() + nc - 1;
                ensure!(total + 1 <= w, "widths", "columns {widths:?} don't let room for the scrollbar in {w}: {what}");
                for c in 0..nc { ensure!(widths[c] >= cfg.mins[c] && widths[c] <= cfg.maxs[c], "widths", "widths {widths:?} not in {:?}..={:?}", cfg.mins, cfg.maxs); }
                if dimensioned { ensure!(total + 1 == w || widths == cfg.maxs, "widths", "widths {widths:?} could be increased up to {:?} in {w}", cfg.maxs); }
                let put = |v: &mut Vec<Glyph>, s: &str, st: Sty| for ch in s.chars() { v.push(Glyph { ch, col: 0, w: cw(ch), st }); };
                let cell = |v: &mut Vec<Glyph>, s: &str, w: usize, al: Alignment, st: Sty| {
                    let mut kept = String::new();
                    let mut kw = 0;
                    for ch in s.chars() { if kw + cw(ch) > w { break; } kept.push(ch); kw += cw(ch); }
                    let (lp, rp) = if kept.len() < s.len() { (0, w - kw) } else { match al { Left | Unspecified => (0, w - kw), Right => (w - kw, 0), Center => ((w - kw) / 2, w - kw - (w - kw) / 2) } };
                    put(v, &" ".repeat(lp), st); put(v, &kept, st); put(v, &" ".repeat(rp), st);
                };
                // titles
                let mut g = Vec::new();
                let mut c = 0;
                while c < nc {
                    let mut e = c + 1;
                    while e < nc && cfg.titles[e] == cfg.titles[c] { e += 1; }
                    if c > 0 { put(&mut g, "│", ts); }
                    cell(&mut g, cfg.titles[c], widths[c..e].iter().sum::<usize>() + e - c - 1, Center, sty_of(&skin.headers[0].compound_style));
                    c = e;
                }
                put(&mut g, &" ".repeat(w - total), Sty::default());
                same_row(&scr, x0, y0, &expect_row(&g, w), &format!("titles of {what}"))?;
                for x in 0..end { ensure!(scr.at(x0 + x, y0 + 1).unwrap().st == ts, "separator-style", "style of the separator: {what}"); }
                for x in end..w { ensure!(scr.at(x0 + x, y0 + 1).unwrap().st.plain(), "separator-style", "style after the separator: {what}"); }
                // rows
                let tb = area.height as usize - 2;
                let bar = nr > tb;
                let max = if bar { nr - tb + 1 } else { 0 };
                let candidates: Vec<usize> = if chosen.is_some() { (0..=max).collect() } else { vec![scroll.min(max)] };
                let mut last = Ok(());
                for sc in candidates {
                    last = (|| {
                        for j in 0..tb {
                            let mut g = Vec::new();
                            if let Some(&r) = shown.get(sc + j) {
                                let selected = chosen == Some(r);
                                for c in 0..nc {
                                    if c > 0 {
                                        let mut st = ts;
                                        if selected && st.bg.is_none() { st.bg = col_of(gray(5)); }
                                        put(&mut g, "│", st);
                                    }
                                    let mut st = sty_of(styles[c % 2]);
                                    if selected { st.bg = col_of(gray(5)); }
                                    cell(&mut g, &data[r][c], widths[c], cfg.aligns[c], st);
                                }
                            }
                            let done: usize = g.iter().map(|g| g.w).sum();
                            put(&mut g, &" ".repeat(w - done), Sty::default());
                            let mut want = expect_row(&g, w);
                            if bar { want.truncate(w - 1); }
                            same_row(&scr, x0, y0 + 2 + j, &want, &format!("scroll {sc}: {what}"))?;
                        }
                        if bar {
                            let thumb = compute_scrollbar(sc, nr, tb as u16, 0u16).unwrap();
                            ensure!(lv.scrollbar().map(|(a, b)| b - a) == Some(thumb.1 - thumb.0), "scrollbar", "scrollbar() gives {:?} for scroll {sc}, {nr} rows, {tb} visible", lv.scrollbar());
                            for j in 0..tb {
                                let sc_style = &skin.scrollbar;
                                let ch = if (thumb.0 as usize..=thumb.1 as usize).contains(&j) { &sc_style.thumb } else { &sc_style.track };
                                let cell = scr.at(x0 + w - 1, y0 + 2 + j).unwrap();
                                let mut st = Sty { fg: ch.get_fg().and_then(col_of), bg: ch.get_bg().and_then(col_of), ul: None, attrs: 0 };
                                st.attrs = cell.st.attrs;
                                ensure!(cell.s == ch.nude_char().to_string() && cell.st == st, "scrollbar", "scrollbar cell {j} is {cell:?}, thumb is {thumb:?} (scroll {sc}): {what}");
                            }
                        }
                        Ok(())
                    })();
                    if last.is_ok() { break; }
                }
                last?;
                if bar { l.nontrivial(); }
                if !bar { ensure!(lv.scrollbar().is_none(), "scrollbar", "scrollbar without scrolled rows"); }
            } } }
            Ok(())
}
