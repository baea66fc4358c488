//! InputField: editing (C12), selections (C13), display (C14)
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use crate::props::views::clean;
use serde_json::json;
use termimad::crossterm::event::*;
use termimad::crossterm::style::Color;
use termimad::*;

pub fn run(ctx: &Ctx) {
    match ctx.property.as_str() {
        "C12" => { contents(ctx, false); content_api(ctx, false); new_line_keys(ctx); ctx.bfs(&Keys { sel: false, ctx_quick: ctx.quick() }); }
        "C13" => { contents(ctx, true); content_api(ctx, true); ctx.bfs(&Keys { sel: true, ctx_quick: ctx.quick() }); cut_paste(ctx); }
        _ => display(ctx),
    }
}

//------------------------------------------------------------------ the reference editor
type P = (usize, usize); // y, x
macro_rules! p1 { ($p:expr) => {{ let p = $p; (p.y, p.x) }}; }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Ed { lines: Vec<Vec<char>>, pos: P, tail: Option<P> }
pub fn rcw(c: char) -> usize { if c == '\t' { TAB_REPLACEMENT.len() } else { cw(c) } }
impl Ed {
    fn of(s: &str) -> Ed {
        let lines: Vec<Vec<char>> = s.split('\n').map(|l| l.chars().filter(|c| *c != '\r' && *c != '\u{8}').collect()).collect();
        let pos = (lines.len() - 1, lines[lines.len() - 1].len());
        Ed { lines, pos, tail: None }
    }
    fn text(&self) -> String { self.lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n") }
    fn end(&self) -> P { (self.lines.len() - 1, self.lines[self.lines.len() - 1].len()) }
    fn valid(&self, p: P) -> P { if p.0 >= self.lines.len() { self.end() } else { (p.0, p.1.min(self.lines[p.0].len())) } }
    fn positions(&self) -> Vec<P> { self.lines.iter().enumerate().flat_map(|(y, l)| (0..=l.len()).map(move |x| (y, x))).collect() }
    fn wide(&self) -> bool { self.tail.map_or(false, |t| t != self.pos) }
    /// both ends are included
    fn sel(&self) -> (P, P) { let t = self.tail.unwrap_or(self.pos); (t.min(self.pos), t.max(self.pos)) }
    fn flat(&self, p: P) -> usize { self.lines[..p.0].iter().map(|l| l.len() + 1).sum::<usize>() + p.1 }
    fn unflat(&self, mut i: usize) -> P { for (y, l) in self.lines.iter().enumerate() { if i <= l.len() { return (y, i); } i -= l.len() + 1; } self.end() }
    fn flat_chars(&self) -> Vec<char> { self.text().chars().collect() }
    /// replace chars a..b by s, and put the cursor there
    fn splice(&mut self, a: usize, b: usize, s: &str, cursor: usize) {
        let mut v = self.flat_chars();
        v.splice(a..b.min(v.len()), s.chars());
        let t: String = v.into_iter().collect();
        self.lines = t.split('\n').map(|l| l.chars().collect()).collect();
        self.pos = self.unflat(cursor);
    }
    fn insert(&mut self, s: &str) {
        let s: String = s.chars().filter(|c| *c != '\r' && *c != '\u{8}').collect();
        let p = self.flat(self.pos);
        self.splice(p, p, &s, p + s.chars().count());
    }
    fn sel_string(&self) -> String {
        let (a, b) = self.sel();
        let v = self.flat_chars();
        v[self.flat(a)..(self.flat(b) + 1).min(v.len())].iter().collect()
    }
    fn del_sel(&mut self) -> bool {
        let (a, b) = self.sel();
        if a == b { return self.del_below(); }
        let (a, b) = (self.flat(a), self.flat(b) + 1);
        self.splice(a, b, "", a);
        self.tail = None;
        true
    }
    fn del_below(&mut self) -> bool {
        let p = self.flat(self.pos);
        if p >= self.flat_chars().len() { return false; }
        self.splice(p, p + 1, "", p);
        true
    }
    fn del_left(&mut self) -> bool {
        let p = self.flat(self.pos);
        if p == 0 { return false; }
        self.splice(p - 1, p, "", p - 1);
        true
    }
    fn col(&self, y: usize, x: usize) -> usize { self.lines[y][..x].iter().map(|c| rcw(*c)).sum() }
    fn at_col(&self, y: usize, col: usize) -> usize { (0..=self.lines[y].len()).find(|x| self.col(y, *x) >= col).unwrap_or(self.lines[y].len()) }
    fn vert(&mut self, d: isize) -> bool {
        let y = (self.pos.0 as isize + d).clamp(0, self.lines.len() as isize - 1) as usize;
        if y == self.pos.0 { return false; }
        self.pos = (y, self.at_col(y, self.col(self.pos.0, self.pos.1)));
        true
    }
    fn go(&mut self, p: P) -> bool { let r = p != self.pos; self.pos = p; r }
    fn an(&self, x: usize) -> bool { self.lines[self.pos.0].get(x).map_or(false, |c| c.is_alphanumeric()) }
    /// the selection isn't specified after this operation
    fn loose(&self, op: &Op) -> bool {
        self.wide() && matches!(op, Op::Ins(_) | Op::Str(_) | Op::NewLine | Op::DelLeft | Op::DelBelow | Op::DelWordLeft | Op::DelWordRight | Op::LineUp | Op::LineDown)
    }
    /// take the other end of the selection of the input
    fn adopt(&mut self, i: &InputField) {
        let c = i.content();
        let s = c.selection();
        self.tail = if !c.has_selection() { None } else if p1!(s.min) == self.pos { Some(p1!(s.max)) } else { Some(p1!(s.min)) };
    }
    fn apply(&mut self, op: &Op) -> Option<bool> {
        let (y, x) = self.pos;
        let len = self.lines[y].len();
        let edit = matches!(op, Op::Ins(_) | Op::Str(_) | Op::NewLine | Op::DelLeft | Op::DelWordLeft | Op::DelWordRight | Op::LineUp | Op::LineDown);
        if edit && !self.wide() { self.tail = None; }
        let r = match op {
            Op::Ins(c) => { self.insert(&c.to_string()); None }
            Op::Str(s) => { self.insert(s); None }
            Op::NewLine => { self.insert("\n"); None }
            Op::Clear => { *self = Ed::of(""); None }
            Op::Set(s) => { if *s != self.text() { *self = Ed::of(s); } None }
            Op::MakeSel => { if self.tail.is_none() { self.tail = Some(self.pos); } None }
            Op::Unselect => { self.tail = None; None }
            Op::DelLeft => Some(self.del_left()),
            Op::DelBelow => Some(self.del_below()),
            Op::DelWordLeft => {
                // the char on the left, and the alphanumeric ones before
                if x == 0 { Some(false) } else {
                    let mut k = x - 1;
                    while k > 0 && self.an(k - 1) { k -= 1; }
                    let (a, b) = (self.flat((y, k)), self.flat(self.pos));
                    self.splice(a, b, "", a);
                    Some(true)
                }
            }
            Op::DelWordRight => {
                if x < len {
                    let mut k = x;
                    while self.an(k) { k += 1; }
                    let a = self.flat(self.pos);
                    if k < len { self.splice(a, a + k + 1 - x, "", a); }
                    else { self.splice(a, a + k - x, "", a); self.pos.1 = x.saturating_sub(1); }
                    Some(true)
                } else if x > 0 { self.pos.1 -= 1; Some(true) } else { Some(false) }
            }
            Op::DelSel => Some(self.del_sel()),
            Op::LineUp => if y > 0 { self.lines.swap(y - 1, y); self.pos.0 -= 1; Some(true) } else { Some(false) },
            Op::LineDown => if y + 1 < self.lines.len() { self.lines.swap(y + 1, y); self.pos.0 += 1; Some(true) } else { Some(false) },
            Op::Right => { let p = self.unflat(self.flat(self.pos) + 1); Some(self.go(p)) }
            Op::Left => { let p = self.unflat(self.flat(self.pos).saturating_sub(1)); Some(self.go(p)) }
            Op::Up(n) => Some(self.vert(-(*n as isize))),
            Op::Down(n) => Some(self.vert(*n as isize)),
            Op::ToEnd => { let e = self.end(); Some(self.go(e)) }
            Op::ToStart => Some(self.go((0, 0))),
            Op::LineEnd => Some(self.go((y, len))),
            Op::LineStart => Some(self.go((y, 0))),
            Op::WordLeft => if x == 0 { Some(false) } else { let mut k = x - 1; while k > 0 && self.an(k - 1) { k -= 1; } self.pos.1 = k; Some(true) },
            Op::WordRight => if x >= len { Some(false) } else { let mut k = x + 1; while k + 1 < len && self.an(k + 1) { k += 1; } self.pos.1 = k; Some(true) },
            Op::SelWord => {
                let w = |i: usize| self.lines[y].get(i).map_or(false, |c| c.is_alphanumeric() || *c == '_');
                if !w(x) { Some(false) } else {
                    let (mut a, mut b) = (x, x);
                    while a > 0 && w(a - 1) { a -= 1; }
                    while w(b + 1) { b += 1; }
                    self.tail = Some((y, a)); self.pos = (y, b);
                    Some(true)
                }
            }
        };
        self.tail = self.tail.map(|t| self.valid(t));
        self.pos = self.valid(self.pos);
        r
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Op { Ins(char), Str(&'static str), NewLine, Clear, Set(&'static str), MakeSel, Unselect, DelLeft, DelBelow, DelWordLeft, DelWordRight,
    DelSel, LineUp, LineDown, Right, Left, Up(usize), Down(usize), ToEnd, ToStart, LineEnd, LineStart, WordLeft, WordRight, SelWord }
fn all_ops() -> Vec<Op> {
    use Op::*;
    let mut v = vec![Ins('z'), Ins(' '), Ins('字'), Ins('\n'), Ins('\t'), Ins('\r'), Ins('\u{8}'), Str("x\ny"), Str(""), Str("\n\n"), Str("p\r\nq"), NewLine, Clear, Set(""), Set("a"), Set("a\n a"), Set("\n"),
        DelLeft, DelBelow, DelWordLeft, DelWordRight, DelSel, LineUp, LineDown, Right, Left, ToEnd, ToStart, LineEnd, LineStart, WordLeft, WordRight, SelWord];
    for n in [1, H as usize] { v.push(Up(n)); v.push(Down(n)); }
    v
}
fn apply_real(c: &mut InputField, op: &Op) -> Option<bool> {
    match op {
        Op::Ins(ch) => { assert!(c.put_char(*ch)); None }
        Op::Str(s) => { c.insert_str(s); None }
        Op::NewLine => { assert!(c.insert_new_line()); None }
        Op::Clear => { c.clear(); None }
        Op::Set(s) => { c.set_str(s); None }
        Op::MakeSel => { c.apply_keycode_event(KeyCode::F(5), true); None }
        Op::Unselect => { c.apply_keycode_event(KeyCode::F(5), false); None }
        Op::DelLeft => Some(c.del_char_left()),
        Op::DelBelow => Some(c.del_char_below()),
        Op::DelWordLeft => Some(c.del_word_left()),
        Op::DelWordRight => Some(c.del_word_right()),
        Op::DelSel => Some(c.del_selection()),
        Op::LineUp => Some(c.move_current_line_up()),
        Op::LineDown => Some(c.move_current_line_down()),
        Op::Right => Some(c.move_right()),
        Op::Left => Some(c.move_left()),
        Op::Up(1) => Some(c.move_up()),
        Op::Up(_) => Some(c.page_up()),
        Op::Down(1) => Some(c.move_down()),
        Op::Down(_) => Some(c.page_down()),
        Op::ToEnd => Some(c.move_to_end()),
        Op::ToStart => Some(c.move_to_start()),
        Op::LineEnd => Some(c.move_to_line_end()),
        Op::LineStart => Some(c.move_to_line_start()),
        Op::WordLeft => Some(c.move_word_left()),
        Op::WordRight => Some(c.move_word_right()),
        Op::SelWord => Some(c.select_word_around()),
    }
}
/// everything observable of the content (of a type which can't be named) must be as in the reference
macro_rules! same_content { ($c:expr, $e:expr, $sel:expr, $what:expr) => {{
    let (c, e) = ($c, $e);
    let t = e.text();
    ensure!(c.to_string() == t, "content", "{}: content is {:?} instead of {t:?}", ($what)(), c.to_string());
    ensure!(c.lines().len() == e.lines.len() && c.lines().iter().zip(&e.lines).all(|(a, b)| a.chars == *b), "lines", "{}: lines {:?}", ($what)(), c.lines());
    ensure!(p1!(c.cursor_pos()) == e.pos, "cursor", "{}: cursor at {:?} instead of {:?}", ($what)(), p1!(c.cursor_pos()), e.pos);
    if $sel {
        let s = c.selection();
        ensure!((p1!(s.min), p1!(s.max)) == e.sel(), "selection", "{}: selection is {s:?} instead of {:?}", ($what)(), e.sel());
        ensure!(c.has_wide_selection() == e.wide(), "selection", "{}: has_wide_selection is {}", ($what)(), c.has_wide_selection());
        let ss = guard(|| c.selection_string())?;
        ensure!(ss == e.sel_string(), "selection", "{}: selected text is {ss:?} instead of {:?}", ($what)(), e.sel_string());
    }
}} }
fn same(i: &InputField, e: &Ed, sel: bool, what: &dyn Fn() -> String) -> Res {
    same_content!(i.content(), e, sel, what);
    Ok(())
}
/// all small contents
fn texts(quick: bool) -> Vec<String> {
    let mut v = Vec::new();
    let mut add = |alpha: &[char], max_len: u32, max_lines: u32| {
        let s = Seqs { a: alpha.len() as u64, min: 0, max: max_len };
        let ls: Vec<String> = (0..s.len()).map(|i| s.get(i).into_iter().map(|k| alpha[k]).collect()).collect();
        let d = Seqs { a: ls.len() as u64, min: 1, max: max_lines };
        for i in 0..d.len() { v.push(d.get(i).into_iter().map(|k| ls[k].as_str()).collect::<Vec<_>>().join("\n")); }
    };
    if quick { add(&['a', ' ', '漢', '\t'], 3, 2); add(&['a'], 1, 6); add(&['é', ' '], 2, 4); add(&['a', '-'], 2, 3); add(&['a', '1', '½', '.'], 3, 1); add(&['_', '1', ' '], 4, 1); add(&['a', '_', '\t', ' '], 3, 1); add(&['a', ' '], 6, 1); }
    else { add(&['a', ' ', '漢', '_'], 3, 2); add(&['a', ' ', '漢'], 2, 3); add(&['a', '-'], 4, 2); add(&['a', '1', '½', '.'], 4, 1); add(&['_', '1', ' ', '²'], 5, 1); add(&['1', ' '], 3, 2); add(&['a', '_', '\t', ' '], 5, 1); add(&['a', ' '], 9, 1); add(&['a'], 2, 4); }
    v
}
fn contents(ctx: &Ctx, sel: bool) {
    let ts = texts(ctx.quick());
    let ops = all_ops();
    ctx.family(&Fam {
        name: "content-ops".into(),
        bounds: format!("all {} contents (up to 2 lines of 3 chars, 4 lines of 2 chars, 6 lines of 1 char, 1 line of 6 chars, or more when thorough), all cursor positions, no selection or all selection tails, x {} operations: the transition relation is checked on each edge, the state being the whole content object", ts.len(), ops.len()),
        n: ts.len() as u64,
        d: |i| json!({"content": ts[i as usize]}),
        c: |i, l: &mut Local| {
            let e0 = Ed::of(&ts[i as usize]);
            let ps = e0.positions();
            for pos in &ps { for tail in std::iter::once(None).chain(ps.iter().map(|p| Some(*p))) {
                let e = Ed { pos: *pos, tail, ..e0.clone() };
                let i = guard(|| build(&e, H))?;
                same(&i, &e, true, &|| format!("setup {e:?}"))?;
                let t = e.text();
                ensure!(i.is_content(&t) && !i.is_content(&format!("{t}z")) && !i.is_content(&format!("{t}\n")) && i.is_empty() == t.is_empty() && i.get_content() == t, "is-str", "is_content/is_empty/get_content wrong for {t:?}");
                let f = e.flat(e.pos);
                ensure!(i.can_move_left() == (f > 0) && i.can_move_right() == (f < t.chars().count()), "can-move", "can_move is wrong in {e:?}");
                for op in &ops {
                    let mut i2 = build(&e, H);
                    let mut e2 = e.clone();
                    let r = guard(|| apply_real(&mut i2, op)).map_err(|v| Viol { msg: format!("{op:?} on {e:?}: {}", v.msg), ..v })?;
                    let want = e2.apply(op);
                    l.trace(h64(&(&e2.lines, e2.pos, e2.tail)));
                    if e2 != e { l.nontrivial(); }
                    if e.loose(op) { e2.adopt(&i2); }
                    same(&i2, &e2, sel, &|| format!("{op:?} on {e:?}"))?;
                    if sel && matches!(op, Op::Clear | Op::Unselect) { ensure!(!i2.content().has_selection(), "selection", "{op:?} on {e:?} keeps a selection"); }
                    for t in e2.tail { ensure!(e2.valid(t) == t, "selection", "{op:?} on {e:?}: the selection ends at {t:?}, out of the content"); }
                    ensure!(r == want, "result", "{op:?} on {e:?} returns {r:?} instead of {want:?}");
                }
            } }
            Ok(())
        },
    });
}

/// a content on its own: functions which an InputField doesn't call, positions out of the content
fn content_api(ctx: &Ctx, sel: bool) {
    let ts = texts(true);
    ctx.family(&Fam {
        name: "content-api".into(),
        bounds: format!("all {} contents (up to 2 lines of 3 chars, 4 lines of 2 chars, 6 lines of 1 char, 1 line of 6 chars), on the content object itself, all positions set as cursor and selection tail, up to 2 lines and 2 chars out of the content", ts.len()),
        n: ts.len() as u64,
        d: |i| json!({"content": ts[i as usize]}),
        c: |i, l: &mut Local| {
            let e0 = Ed::of(&ts[i as usize]);
            let mut field = InputField::new(Area::new(3, 2, 10, H));
            field.set_str(e0.text());
            let c0 = field.content().clone();
            let mut kept = c0.clone();
            let mut eq = |c: &_, e: &Ed, what: &dyn Fn() -> String| -> Res { kept.clone_from(c); same_content!(&kept, e, sel, what); Ok(()) };
            eq(&c0, &e0, &|| "from text".into())?;
            let nl = e0.lines.len();
            let widest = e0.lines.iter().map(|l| l.len()).max().unwrap();
            let all: Vec<P> = (0..nl + 2).flat_map(|y| (0..widest + 3).map(move |x| (y, x))).collect();
            let pos = |p: P| { let mut q = c0.cursor_pos(); q.y = p.0; q.x = p.1; q };
            for p in &all {
                let v = e0.valid(*p);
                ensure!(p1!(c0.make_valid_pos(pos(*p))) == v, "cursor", "make_valid_pos({p:?}) gives {:?} in {e0:?}", c0.make_valid_pos(pos(*p)));
                let mut c = c0.clone();
                guard(|| c.set_cursor_pos(pos(*p)))?;
                let e = Ed { pos: v, ..e0.clone() };
                eq(&c, &e, &|| format!("set_cursor_pos({p:?}) in {e0:?}"))?;
                ensure!(p1!(c.end()) == e.end() && c.line_count() == nl && c.current_line().chars == e.lines[v.0], "lines", "end, line_count or current_line wrong in {e:?}");
                if !sel {
                    for n in 1..4usize {
                        for down in [true, false] {
                            let (mut c2, mut e2) = (c.clone(), e.clone());
                            let r = guard(|| if down { c2.move_lines_down(n) } else { c2.move_lines_up(n) })?;
                            let want = e2.vert(if down { n as isize } else { -(n as isize) });
                            let what = || format!("move {n} lines {} on {e:?}", if down { "down" } else { "up" });
                            eq(&c2, &e2, &what)?;
                            ensure!(r == want, "result", "{} returns {r}", what());
                        }
                    }
                    for ch in ['z', '字', '\n', '\r', '\u{8}'] {
                        let (mut c2, mut e2) = (c.clone(), e.clone());
                        guard(|| c2.insert_char(ch))?;
                        e2.insert(&ch.to_string());
                        eq(&c2, &e2, &|| format!("insert_char({ch:?}) on {e:?}"))?;
                        let (mut c2, mut e2) = (c.clone(), Ed::of(&format!("{}{ch}", e.text())));
                        guard(|| c2.push_char(ch))?;
                        e2.pos = e.pos;
                        eq(&c2, &e2, &|| format!("push_char({ch:?}) on {e:?}"))?;
                    }
                    for ya in 0..nl + 2 { for yb in 0..nl + 2 {
                        let (mut c2, mut e2) = (c.clone(), e.clone());
                        let r = guard(|| c2.swap_lines(ya, yb))?;
                        let want = ya != yb && ya < nl && yb < nl;
                        if want { e2.lines.swap(ya, yb); e2.pos = e2.valid(e2.pos); }
                        eq(&c2, &e2, &|| format!("swap_lines({ya}, {yb}) on {e:?}"))?;
                        ensure!(r == want, "result", "swap_lines({ya}, {yb}) on {e:?} returns {r}");
                    } }
                    let mut c2 = c.clone();
                    guard(|| c2.set_str(e.text()))?;
                    eq(&c2, &e, &|| format!("set_str with the same text on {e:?}"))?;
                    continue;
                }
                for t in &all {
                    let e = Ed { tail: Some(e0.valid(*t)), ..e.clone() };
                    let mut c = c.clone();
                    guard(|| c.set_selection_tail(pos(*t)))?;
                    eq(&c, &e, &|| format!("cursor at {p:?} and tail at {t:?} in {e0:?}"))?;
                    let s = c.selection();
                    let flat: Vec<P> = e.positions();
                    for q in &flat { ensure!(s.contains(q.1, q.0) == (e.sel().0 <= *q && *q <= e.sel().1) && s.contains_pos(pos(*q)) == s.contains(q.1, q.0), "selection", "{q:?} is wrongly in or out of the selection of {e:?}"); }
                    ensure!(c.selection_chars().collect::<String>() == e.sel_string(), "selection", "selection_chars wrong in {e:?}");
                    let mut c2 = c.clone();
                    c2.unselect();
                    eq(&c2, &Ed { tail: None, ..e.clone() }, &|| format!("unselect in {e:?}"))?;
                    c2.make_selection();
                    eq(&c2, &Ed { tail: Some(e.pos), ..e.clone() }, &|| format!("make_selection in {e:?}"))?;
                    c2 = c.clone();
                    c2.make_selection();
                    eq(&c2, &e, &|| format!("make_selection with a selection in {e:?}"))?;
                    if e.wide() {
                        let mut e2 = e.clone();
                        guard(|| c2.del_selection())?;
                        e2.del_sel();
                        eq(&c2, &e2, &|| format!("del_selection in {e:?}"))?;
                    }
                    for ya in 0..nl { for yb in 0..ya {
                        let mut c2 = c.clone();
                        guard(|| c2.swap_lines(ya, yb))?;
                        let mut e2 = e.clone();
                        e2.lines.swap(ya, yb);
                        e2.pos = e2.valid(e2.pos);
                        let s = c2.selection();
                        let what = || format!("swap_lines({ya}, {yb}) in {e:?}");
                        ensure!(c2.to_string() == e2.text() && p1!(c2.cursor_pos()) == e2.pos, "content", "{}: content {:?}", what(), c2.to_string());
                        ensure!(e2.valid(p1!(s.min)) == p1!(s.min) && e2.valid(p1!(s.max)) == p1!(s.max), "selection", "{}: selection {s:?}, out of the content", what());
                    } }
                    l.trace(h64(&(&e.lines, e.pos, e.tail)));
                }
            }
            if !sel {
                let text: String = (&c0).into_iter().collect();
                ensure!(text == e0.text(), "content", "iterating on the chars of {e0:?} gives {text:?}");
                for y in 0..nl + 2 {
                    ensure!(c0.line(y).is_some() == (y < nl) && c0.line_saturating(y).chars == e0.lines[y.min(nl - 1)], "lines", "line({y}) wrong in {e0:?}");
                    let Some(line) = c0.line(y) else { continue };
                    let len = e0.lines[y].len();
                    ensure!(line.width() == e0.col(y, len), "columns", "width of line {y} of {e0:?} is {}", line.width());
                    for x in 0..=len { ensure!(line.char_idx_to_col(x) == e0.col(y, x), "columns", "char {x} of line {y} of {e0:?} is at column {}", line.char_idx_to_col(x)); }
                    for col in 0..line.width() + 3 {
                        let want = Some(e0.at_col(y, col)).filter(|x| *x < len);
                        ensure!(line.col_to_char_idx(col) == want, "columns", "column {col} of line {y} of {e0:?} is char {:?}", line.col_to_char_idx(col));
                    }
                }
                for t2 in &ts { ensure!(c0.is_str(t2) == (Ed::of(t2).lines == e0.lines), "content", "{e0:?} is_str({t2:?}) is {}", c0.is_str(t2)); }
                ensure!(c0.is_empty() == e0.text().is_empty(), "content", "is_empty is wrong for {e0:?}");
                l.trace(h64(&e0.lines));
            }
            Ok(())
        },
    });
}

//------------------------------------------------------------------ keys on an InputField
struct Keys { sel: bool, ctx_quick: bool }
#[derive(Debug, Clone, Copy, PartialEq)]
enum K { Key(KeyCode, u8, Via), Cut, Copy, Replace(&'static str), Paste(&'static str) }
#[derive(Debug, Clone, Copy, PartialEq)]
enum Via { Combi, KeyEvent, Event, Code }
fn build(e: &Ed, h: u16) -> InputField {
    let mut i = InputField::new(Area::new(3, 2, 10, h));
    i.new_line_on(InputField::ALT_ENTER);
    i.set_str(e.text());
    i.move_to_start();
    let (target, n) = match e.tail { Some(t) => (t, true), None => (e.pos, false) };
    for _ in 0..e.flat(target) { i.move_right(); }
    if n {
        i.apply_keycode_event(KeyCode::F(5), true);
        let (a, b) = (e.flat(target), e.flat(e.pos));
        for _ in a..b { i.move_right(); }
        for _ in b..a { i.move_left(); }
    }
    i
}
const H: u16 = 2;
/// what a key does
fn ref_key(e: &mut Ed, code: KeyCode, m: KeyModifiers) -> bool {
    if m == KeyModifiers::ALT && code == KeyCode::Enter { e.apply(&Op::NewLine); return true; }
    let shift = m == KeyModifiers::SHIFT;
    if !m.is_empty() && !shift { return false; }
    match code {
        KeyCode::Backspace => if e.wide() { e.del_sel() } else { e.apply(&Op::DelLeft).unwrap() },
        KeyCode::Delete => if e.wide() { e.del_sel() } else { e.apply(&Op::DelBelow).unwrap() },
        KeyCode::Char(c) => { if e.wide() { e.del_sel(); } e.apply(&Op::Ins(c)); true }
        _ => {
            e.apply(if shift { &Op::MakeSel } else { &Op::Unselect });
            let op = match code {
                KeyCode::Home => Op::LineStart, KeyCode::End => Op::LineEnd, KeyCode::Up => Op::Up(1), KeyCode::Down => Op::Down(1),
                KeyCode::Left => Op::Left, KeyCode::Right => Op::Right, KeyCode::PageUp => Op::Up(H as usize), KeyCode::PageDown => Op::Down(H as usize),
                _ => return false,
            };
            e.apply(&op).unwrap()
        }
    }
}
impl Model for Keys {
    type S = Ed;
    type Op = K;
    fn name(&self) -> String { "input-keys".into() }
    fn bounds(&self) -> String { format!("all states (content, cursor, selection) reachable with contents of <= {} lines of <= {} chars, closed under all keys with modifiers none, shift, alt, ctrl through apply_key_combination, apply_key_event, apply_event, apply_keycode_event, and cut, copy, replace, paste", self.max().0, self.max().1) }
    fn max_depth(&self) -> usize { 1000 }
    fn max_states(&self) -> usize { 6_000_000 }
    fn inits(&self) -> Vec<(String, Ed)> { vec![("empty".into(), Ed::of(""))] }
    fn ops(&self, _: &Ed) -> Vec<K> {
        use KeyCode::*;
        let (n, s, a, c) = (0, KeyModifiers::SHIFT.bits(), KeyModifiers::ALT.bits(), KeyModifiers::CONTROL.bits());
        let mut v = vec![K::Key(Enter, a, Via::Combi), K::Key(Enter, n, Via::Combi), K::Key(Char('a'), c, Via::Combi), K::Key(Left, c, Via::Combi), K::Key(F(5), s, Via::Combi), K::Key(Esc, n, Via::Combi)];
        for k in [Char('a'), Char(' '), Char('漢'), Backspace, Delete, Home, End, Up, Down, Left, Right, PageUp, PageDown] {
            v.push(K::Key(k, n, Via::Combi));
            if !self.ctx_quick { v.push(K::Key(k, n, Via::KeyEvent)); v.push(K::Key(k, n, Via::Code)); v.push(K::Key(k, s, Via::Code)); }
            v.push(K::Key(k, n, Via::Event));
            if !matches!(k, Char(_)) { v.push(K::Key(k, s, Via::Combi)); v.push(K::Key(k, s, Via::Event)); }
        }
        v.extend([K::Key(Char('A'), s, Via::Combi), K::Key(Char('A'), s, Via::Event)]);
        v.extend([K::Cut, K::Copy, K::Replace(""), K::Replace("b\nc"), K::Paste("d")]);
        v
    }
    fn key(&self, e: &Ed) -> Option<u128> {
        let (a, b) = self.max();
        if e.lines.len() > a || e.lines.iter().any(|l| l.len() > b) || e.lines.iter().flatten().any(|c| "bcdA".contains(*c)) { return None; }
        Some(key128(e))
    }
    fn step(&self, e: &Ed, op: &K, l: &mut Local) -> Result<Ed, Viol> {
        let mut i = guard(|| build(e, H))?;
        let mut e2 = e.clone();
        same(&i, e, true, &|| "setup".into())?;
        let (r, want) = match *op {
            K::Key(code, m, via) => {
                let m = KeyModifiers::from_bits_truncate(m);
                let k = KeyEvent::new(code, m);
                let r = guard(|| match via {
                    Via::Combi => i.apply_key_combination(k),
                    Via::KeyEvent => i.apply_key_event(k),
                    Via::Event => i.apply_event(&Event::Key(k), false),
                    Via::Code => i.apply_keycode_event(code, m == KeyModifiers::SHIFT),
                })?;
                (r, ref_key(&mut e2, code, m))
            }
            K::Cut => { let s = guard(|| i.cut_selection())?; let w = e.sel_string(); e2.del_sel(); ensure!(s == w, "cut", "cut_selection gives {s:?} instead of {w:?} in {e:?}"); (true, true) }
            K::Copy => { let s = guard(|| i.copy_selection())?; ensure!(s == e.sel_string(), "copy", "copy_selection gives {s:?} in {e:?}"); (true, true) }
            K::Replace(s) | K::Paste(s) => { guard(|| i.replace_selection(s))?; if e2.wide() { e2.del_sel(); } e2.apply(&Op::Str(s)); (true, true) }
        };
        l.trace(h64(&(&e2, r)));
        if e2 != *e { l.nontrivial(); }
        if matches!(op, K::Key(KeyCode::Enter, m, _) if *m == KeyModifiers::ALT.bits()) && e.wide() { e2.adopt(&i); for t in e2.tail { ensure!(e2.valid(t) == t, "selection", "{op:?} on {e:?}: the selection ends at {t:?}, out of the content"); } }
        same(&i, &e2, self.sel, &|| format!("{op:?} on {e:?}"))?;
        ensure!(r == want, "consumed", "{op:?} on {e:?} returns {r} instead of {want}");
        if !e2.wide() { e2.tail = None; }
        Ok(e2)
    }
}
impl Keys { fn max(&self) -> (usize, usize) { if self.ctx_quick { (2, 3) } else { (3, 3) } } }

/// which keys insert a new line
fn new_line_keys(ctx: &Ctx) {
    let (none, sh, al, ct) = (KeyModifiers::NONE, KeyModifiers::SHIFT, KeyModifiers::ALT, KeyModifiers::CONTROL);
    let keys = [(KeyCode::Enter, none), (KeyCode::Enter, al), (KeyCode::Char('j'), ct), (KeyCode::Char('x'), none), (KeyCode::Enter, sh), (KeyCode::F(3), none), (KeyCode::Enter, ct), (KeyCode::Char('y'), none), (KeyCode::Char('x'), al)];
    let seqs = Seqs { a: 7, min: 0, max: ctx.by(4, 6) };
    ctx.family(&Fam {
        name: "new-line-keys".into(),
        bounds: format!("all sequences of up to {} calls to new_line_on (6 keys) and set_mono_line, then each of {} keys, in 4 ways, in a focused or not field, at all positions of 2 contents", seqs.max, keys.len()),
        n: seqs.len(),
        d: |i| json!({"calls": seqs.get(i).into_iter().map(|k| if k == 6 { "set_mono_line".to_string() } else { format!("new_line_on {:?}", keys[k]) }).collect::<Vec<_>>()}),
        c: |i, l: &mut Local| {
            let calls = seqs.get(i);
            let mut on: Vec<usize> = Vec::new();
            for k in &calls { if *k == 6 { on.clear(); } else { on.push(*k); } }
            for (kn, (code, m)) in keys.iter().enumerate() { for via in 0..4 { for focused in [true, false] { for text in ["ab", "漢\n"] {
                let e0 = Ed::of(text);
                for p in e0.positions() {
                    let mut i = InputField::new(Area::new(3, 2, 10, H));
                    i.set_str(text);
                    i.move_to_start();
                    for _ in 0..e0.flat(p) { i.move_right(); }
                    for k in &calls { if *k == 6 { i.set_mono_line(); } else if *k == 0 { i.new_line_on(InputField::ENTER); } else if *k == 1 { i.new_line_on(InputField::ALT_ENTER); } else { i.new_line_on(KeyEvent::new(keys[*k].0, keys[*k].1)); } }
                    i.set_focus(focused);
                    let k = KeyEvent::new(*code, *m);
                    let mut e = Ed { pos: p, ..e0.clone() };
                    let r = guard(|| match via {
                        0 => i.apply_key_combination(k),
                        1 => i.apply_key_event(k),
                        2 => i.apply_event(&Event::Key(k), false),
                        _ => i.apply_timed_event(&TimedEvent { time: std::time::Instant::now(), event: Event::Key(k), double_click: false, key_combination: Some(k.into()) }),
                    })?;
                    let mut want = true;
                    if !focused { want = false; }
                    else if on.contains(&kn) { e.apply(&Op::NewLine); l.nontrivial(); }
                    else if let (KeyCode::Char(c), true) = (code, m.is_empty()) { e.apply(&Op::Ins(*c)); }
                    else { want = false; }
                    l.trace(h64(&(&e, r)));
                    let what = || format!("key {code:?} {m:?} (way {via}, focused: {focused}) at {p:?} in {text:?} after {calls:?}");
                    same(&i, &e, false, &what)?;
                    ensure!(r == want, "consumed", "{} returns {r} instead of {want}", what());
                }
            } } } }
            Ok(())
        },
    });
}

/// cutting then putting back restores
fn cut_paste(ctx: &Ctx) {
    let ts = texts(ctx.quick());
    ctx.family(&Fam {
        name: "cut-paste".into(),
        bounds: format!("{} contents, all selections: cut then paste at the same place gives the initial content", ts.len()),
        n: ts.len() as u64,
        d: |i| json!({"content": ts[i as usize]}),
        c: |i, l: &mut Local| {
            let e0 = Ed::of(&ts[i as usize]);
            let ps = e0.positions();
            for pos in &ps { for tail in &ps {
                if pos == tail { continue; }
                let e = Ed { pos: *pos, tail: Some(*tail), ..e0.clone() };
                let mut input = build(&e, 3);
                let copied = guard(|| input.copy_selection())?;
                let s = guard(|| input.cut_selection())?;
                l.trace(h64(&(&e, &s)));
                l.nontrivial();
                ensure!(copied == s && s == e.sel_string(), "cut", "copied {copied:?}, cut {s:?} instead of {:?} in {e:?}", e.sel_string());
                ensure!(!input.content().has_selection(), "cut", "still a selection after cutting in {e:?}");
                let left = input.get_content();
                ensure!(left.chars().count() + s.chars().count() == e.text().chars().count(), "cut", "cut {s:?} leaves {left:?} in {e:?}");
                guard(|| input.replace_selection(&s))?;
                ensure!(input.get_content() == e.text(), "paste", "cutting and pasting {s:?} gives {:?} in {e:?}", input.get_content());
            } }
            Ok(())
        },
    });
}

//------------------------------------------------------------------ display
fn styles() -> (CompoundStyle, CompoundStyle) {
    (CompoundStyle::with_fgbg(Color::AnsiValue(11), Color::AnsiValue(12)), CompoundStyle::with_fgbg(Color::AnsiValue(13), Color::AnsiValue(14)))
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum D { Key(KeyCode, bool), NewLine, Click(u16, u16), Double(u16, u16), Drag(u16, u16), ShiftClick(u16, u16), SimpleClick(u16, u16), WheelUp, WheelDown, Area(u16, u16), Change(u16), Focus(bool), Set(&'static str), Ctrl(char), Cut, Paste(&'static str), ScrollUp, ScrollDown, Move(u16, u16), Other(u8) }
#[derive(Debug, Clone, PartialEq)]
struct Init { text: &'static str, w: u16, h: u16, password: bool, at_start: bool }
#[derive(Debug, Clone)]
struct DS { init: Init, ops: Vec<D>, key: u128 }
struct Display { inits: Vec<Init>, depth: usize, ops: Vec<D>, name: &'static str }
const L: u16 = 2;
const T0: u16 = 1;
fn apply_d(i: &mut InputField, op: &D) -> bool {
    let (left, top) = (i.area().left, i.area().top);
    let ev = |kind, x, y, m| MouseEvent { kind, column: left + x, row: top + y, modifiers: m };
    let none = KeyModifiers::NONE;
    match *op {
        D::Key(k, s) => i.apply_key_combination(KeyEvent::new(k, if s { KeyModifiers::SHIFT } else { none })),
        D::NewLine => i.insert_new_line(),
        D::Click(x, y) => i.apply_mouse_event(ev(MouseEventKind::Down(MouseButton::Left), x, y, none), false),
        D::ShiftClick(x, y) => i.apply_mouse_event(ev(MouseEventKind::Down(MouseButton::Left), x, y, KeyModifiers::SHIFT), false),
        D::Double(x, y) => { let event = Event::Mouse(ev(MouseEventKind::Up(MouseButton::Left), x, y, none)); if y == 1 { i.apply_event(&event, true) } else { i.apply_timed_event(&TimedEvent { time: std::time::Instant::now(), event, double_click: true, key_combination: None }) } }
        D::Drag(x, y) => i.apply_mouse_event(ev(MouseEventKind::Drag(MouseButton::Left), x, y, none), false),
        D::SimpleClick(x, y) => i.apply_click_event(left + x, top + y),
        D::WheelUp => i.apply_mouse_event(ev(MouseEventKind::ScrollUp, 0, 0, none), false),
        D::WheelDown => i.apply_mouse_event(ev(MouseEventKind::ScrollDown, 0, 0, none), false),
        D::Area(w, h) => { i.set_area(Area::new(left, top, w, h)); true }
        D::Change(w) => { i.change_area(left, top, w); true }
        D::Move(x, y) => { let w = i.area().width; if y == T0 { i.change_area(x, y, w); } else { let h = i.area().height; i.set_area(Area::new(x, y, w, h)); } true }
        D::ScrollUp => i.scroll_up(),
        D::ScrollDown => i.scroll_down(),
        D::Other(k) => {
            use MouseEventKind::*;
            let (kind, x, y, m) = [(Moved, 0, 0, none), (Down(MouseButton::Right), 1, 0, none), (Up(MouseButton::Left), 0, 0, none), (Drag(MouseButton::Right), 1, 0, none), (Up(MouseButton::Right), 1, 0, none), (Down(MouseButton::Middle), 0, 0, KeyModifiers::SHIFT), (ScrollLeft, 0, 0, none),
                (ScrollDown, i.area().width, 0, none), (ScrollUp, 0, i.area().height, none)][k as usize % 9];
            match k { 9 => i.apply_event(&Event::FocusGained, false), 10 => i.apply_event(&Event::Resize(3, 3), false), 11 => i.apply_event(&Event::Paste("pq".into()), true), _ => i.apply_event(&Event::Mouse(ev(kind, x, y, m)), k == 1 || k == 4) }
        }
        D::Focus(b) => { i.set_focus(b); true }
        D::Set(s) => { i.set_str(s); true }
        D::Ctrl('w') => i.del_word_left(),
        D::Ctrl('u') => i.move_current_line_up(),
        D::Ctrl('d') => i.move_current_line_down(),
        D::Ctrl('e') => i.move_to_end(),
        D::Ctrl('s') => i.move_to_start(),
        D::Ctrl('k') => i.clear_and_refocus(),
        D::Ctrl(_) => i.select_word_around(),
        D::Cut => { i.cut_selection(); true }
        D::Paste(s) => { i.replace_selection(s); true }
    }
}
trait Refocus { fn clear_and_refocus(&mut self) -> bool; }
impl Refocus for InputField { fn clear_and_refocus(&mut self) -> bool { self.clear(); self.set_focus(false); self.set_focus(true); true } }
fn start(init: &Init) -> InputField {
    let mut i = InputField::new(Area::new(L, T0, init.w, init.h));
    let (n, u) = styles();
    i.set_normal_style(n);
    i.set_unfocused_style(u);
    i.password_mode = init.password;
    i.set_str(init.text);
    if init.at_start { i.move_to_start(); }
    i
}
fn replay(init: &Init, ops: &[D]) -> InputField { let mut i = start(init); for o in ops { apply_d(&mut i, o); } i }
fn dkey(i: &InputField) -> u128 {
    let c = i.content();
    let s = c.selection();
    key128(&(c.to_string(), p1!(c.cursor_pos()), p1!(s.min), p1!(s.max), c.has_selection(), (i.scroll().x, i.scroll().y), i.focused(), (i.area().width, i.area().height, i.area().left, i.area().top)))
}
/// what the row must show, and where the cursor is
fn expected_row(i: &InputField, y: usize, w: usize, password: bool) -> (Vec<(String, Sty)>, Option<usize>) {
    let (n, u) = styles();
    let normal = sty_of(if i.focused() { &n } else { &u });
    let mut cur = n.clone(); cur.add_attr(termimad::crossterm::style::Attribute::Reverse);
    let cursor = sty_of(&cur);
    let mut cells = vec![(" ".to_string(), normal); w];
    let mut at = None;
    let Some(line) = i.content().line(y) else { return (cells, None) };
    if w == 0 { return (cells, None); }
    let sx = i.scroll().x;
    let pos = i.content().cursor_pos();
    let sel = i.content().selection();
    let inside = |x: usize| { let p = (y, x); i.focused() && p1!(sel.min) <= p && p <= p1!(sel.max) };
    let len = line.chars.len();
    let widths: Vec<usize> = line.chars.iter().map(|c| if password { 1 } else { rcw(*c) }).collect();
    let total: usize = widths.iter().sum();
    let left = sx > 0 && w > 4;
    let from = sx + left as usize;
    let overflow = total > sx + w;
    let mut col = 0;
    let mut done = false;
    for (x, c) in line.chars.iter().enumerate() {
        let (a, b) = (col, col + widths[x]);
        col = b;
        if a < from || done { continue; }
        let k = a - sx;
        let st = if inside(x) { cursor } else { normal };
        if overflow && b - sx > w - 1 {
            if k < w { cells[k] = ("…".into(), st); if i.focused() && p1!(pos) == (y, x) { at = Some(k); } }
            done = true;
            continue;
        }
        if i.focused() && p1!(pos) == (y, x) { at = Some(k); }
        if password { cells[k] = ("*".into(), st); }
        else if *c == '\t' { for q in 0..widths[x] { cells[k + q] = (" ".into(), st); } }
        else { cells[k] = (c.to_string(), st); for q in 1..widths[x] { cells[k + q] = (String::new(), st); } }
    }
    if i.focused() && p1!(pos) == (y, len) && !done && total >= from && total - sx < w { cells[total - sx] = (" ".into(), cursor); at = Some(total - sx); }
    if left { cells[0] = ("…".into(), normal); }
    (cells, at)
}
fn check_display(i: &InputField, l: &mut Local, password: bool, must_see: bool, hist: &dyn Fn() -> String) -> Res {
    let mut out = Vec::new();
    let got = guard(|| i.display_on(&mut out).unwrap()).map_err(|v| Viol { msg: format!("{}: {}", hist(), v.msg), ..v })?;
    let out = String::from_utf8(out).or_else(|_| viol("utf8", "not utf8"))?;
    let (w, h) = (i.area().width as usize, i.area().height as usize);
    let (left, top) = (i.area().left, i.area().top);
    let mut scr = Screen::new(w + left as usize + 6, h + top as usize + 3);
    scr.feed(&out);
    l.trace(h64(&(&out, got)));
    clean(&scr, i.area(), &hist())?;
    let bar = i.content().line_count() > h;
    let tw = w.saturating_sub(bar as usize);
    let mut cur = None;
    for j in 0..h {
        let (want, at) = expected_row(i, i.scroll().y + j, tw, password);
        crate::props::views::same_row(&scr, left as usize, top as usize + j, &want, &format!("{}, cursor {:?} scroll {:?}, area {w}x{h}", hist(), i.content().cursor_pos(), i.scroll()))?;
        if let Some(k) = at { cur = Some((left + k as u16, top + j as u16)); }
        if bar && w > 0 {
            let s = i.area().scrollbar(i.scroll().y, i.content().line_count());
            let sk = get_default_skin();
            let y = top + j as u16;
            let sc = if s.map_or(false, |(a, b)| a <= y && y <= b) { &sk.scrollbar.thumb } else { &sk.scrollbar.track };
            let c = scr.at(left as usize + tw, y as usize).unwrap();
            ensure!(c.s == sc.nude_char().to_string(), "scrollbar", "{}: scrollbar cell of row {j} is {:?}, thumb {s:?}", hist(), c.s);
        }
    }
    ensure!(got == cur, "cursor-pos", "{}: display_on returns {got:?} while the cursor (at {:?}, scroll {:?}) is displayed at {cur:?}", hist(), i.content().cursor_pos(), i.scroll());
    if must_see && i.focused() && tw > 0 && h > 0 {
        l.nontrivial();
        ensure!(cur.is_some(), "cursor-hidden", "{}: the cursor at {:?} isn't visible with scroll {:?} in {w}x{h}", hist(), i.content().cursor_pos(), i.scroll());
    }
    // the scroll doesn't show needless emptiness
    ensure!(i.scroll().y == 0 || h > 0 && i.scroll().y + h <= i.content().line_count() || h == 0, "scroll-y", "{}: scroll {:?} for {} lines in height {h}", hist(), i.scroll(), i.content().line_count());
    let line = i.content().current_line();
    let width = if password { line.chars.len() } else { line.chars.iter().map(|c| rcw(*c)).sum() };
    ensure!(i.scroll().x == 0 || i.scroll().x + tw <= width + 1, "scroll-x", "{}: scroll {:?} while the line of the cursor, with one column for the cursor, takes {} columns, in width {tw}", hist(), i.scroll(), width + 1);
    Ok(())
}
impl Model for Display {
    type S = DS;
    type Op = D;
    fn name(&self) -> String { self.name.into() }
    fn bounds(&self) -> String { format!("{} initial fields, all sequences of <= {} operations over {:?}", self.inits.len(), self.depth, self.ops) }
    fn max_depth(&self) -> usize { self.depth }
    fn inits(&self) -> Vec<(String, DS)> { self.inits.iter().map(|i| (format!("{i:?}"), DS { init: i.clone(), ops: vec![], key: key128(&(format!("{i:?}"),)) })).collect() }
    fn check_init(&self, s: &DS, l: &mut Local) -> Res { let i = guard(|| start(&s.init))?; check_display(&i, l, s.init.password, true, &|| format!("{:?}", s.init)) }
    fn ops(&self, _: &DS) -> Vec<D> { self.ops.clone() }
    fn key(&self, s: &DS) -> Option<u128> { Some(s.key) }
    fn step(&self, s: &DS, op: &D, l: &mut Local) -> Result<DS, Viol> {
        let hist = || format!("{:?} after {:?} then {op:?}", s.init, s.ops);
        let mut i = guard(|| replay(&s.init, &s.ops)).map_err(|v| Viol { msg: format!("{}: {}", hist(), v.msg), ..v })?;
        let before = (i.content().clone(), i.focused(), (i.scroll().y, i.scroll().x));
        let area = i.area().clone();
        // what a click must do, from what's displayed
        let bar = i.content().line_count() > area.height as usize;
        let tw = (area.width as usize).saturating_sub(bar as usize);
        let r = guard(|| apply_d(&mut i, op)).map_err(|v| Viol { msg: format!("{}: {}", hist(), v.msg), ..v })?;
        let after = (i.content().clone(), i.focused(), (i.scroll().y, i.scroll().x));
        match *op {
            D::Click(x, y) | D::Drag(x, y) | D::ShiftClick(x, y) | D::SimpleClick(x, y) | D::Double(x, y) => {
                let inside = x < area.width && y < area.height;
                ensure!(r == inside, "mouse-used", "{}: returns {r}", hist());
                let (focusing, sets) = match op { D::Click(..) | D::ShiftClick(..) | D::SimpleClick(..) => (true, true), D::Drag(..) => (false, true), _ => (false, false) };
                if !inside || !before.1 {
                    ensure!(after.0 == before.0, "mouse-outside", "{}: content or cursor changed", hist());
                    ensure!(after.1 == (before.1 || inside && focusing), "focus", "{}: focused is {}", hist(), after.1);
                } else if (x as usize) < tw {
                    // the line and char under the mouse
                    let ly = (before.2.0 + y as usize).min(before.0.line_count() - 1);
                    let line: &[char] = &before.0.lines()[ly].chars;
                    let col = before.2.1 + x as usize;
                    let mut c = 0; let mut lx = line.len();
                    for (k, ch) in line.iter().enumerate() { if c >= col { lx = k; break; } c += if s.init.password { 1 } else { rcw(*ch) }; }
                    if sets || matches!(op, D::Double(..)) {
                        let mut e = Ed { lines: before.0.lines().iter().map(|l| l.chars.clone()).collect(), pos: p1!(before.0.cursor_pos()), tail: None };
                        if before.0.has_selection() { let s = before.0.selection(); let p = p1!(before.0.cursor_pos()); e.tail = Some(if p1!(s.min) == p { p1!(s.max) } else { p1!(s.min) }); }
                        match op { D::Click(..) => e.tail = None, D::Drag(..) | D::ShiftClick(..) => { if e.tail.is_none() { e.tail = Some(e.pos); } } _ => {} }
                        e.pos = (ly, lx);
                        if matches!(op, D::Double(..)) { e.apply(&Op::SelWord); }
                        same(&i, &e, true, &hist)?;
                    }
                }
            }
            D::WheelUp | D::WheelDown => {
                ensure!(after.0 == before.0, "wheel", "{}: content or cursor changed", hist());
                let max = before.0.line_count().saturating_sub(area.height as usize);
                let want = if !before.1 || area.width == 0 || area.height == 0 { before.2.0 } else if *op == D::WheelUp { before.2.0.saturating_sub(1) } else { (before.2.0 + 1).min(max.max(before.2.0)) };
                ensure!(after.2.0 == want && after.2.1 == before.2.1, "wheel", "{}: scroll goes from {:?} to {:?}", hist(), before.2, after.2);
            }
            D::ScrollUp | D::ScrollDown => {
                ensure!(after.0 == before.0, "wheel", "{}: content or cursor changed", hist());
                let max = before.0.line_count().saturating_sub(area.height as usize);
                let want = if *op == D::ScrollUp { before.2.0.saturating_sub(1) } else { (before.2.0 + 1).min(max.max(before.2.0)) };
                ensure!(after.2.0 == want && after.2.1 == before.2.1, "wheel", "{}: scroll goes from {:?} to {:?}", hist(), before.2, after.2);
                ensure!(r == (want != before.2.0), "wheel", "{}: returns {r}", hist());
            }
            D::Other(k) => {
                ensure!(after == before, "other-event", "{}: something changed", hist());
                ensure!(k < 9 || !r, "other-event", "{}: returns {r}", hist());
            }
            D::Move(..) => ensure!(after.0 == before.0 && after.1 == before.1, "move", "{}: something changed", hist()),
            _ => {}
        }
        let must_see = match op {
            D::WheelUp | D::WheelDown | D::ScrollUp | D::ScrollDown => false,
            D::Focus(b) => *b && !before.1,
            D::Area(..) | D::Change(_) | D::Move(..) => area != *i.area(),
            _ => before.0.cursor_pos() != after.0.cursor_pos() || before.0.to_string() != after.0.to_string() || before.1 != after.1,
        };
        check_display(&i, l, s.init.password, must_see, &hist)?;
        let mut ops = s.ops.clone();
        ops.push(*op);
        let key = key128(&(dkey(&i), s.init.password));
        Ok(DS { init: s.init.clone(), ops, key })
    }
}
fn display(ctx: &Ctx) {
    use KeyCode::*;
    let texts: &[&str] = &["", "abc", "abcdefghijkl", "ab\ncd", "a\nb\nc\nd\ne\nf\ng\nh", "漢字漢字漢字漢字", "a\tb\tc\td", "abcdefghijkl\nm\nnopqrstuvwxyzab\n\nz"];
    // every position in every size
    let sizes: Vec<(u16, u16)> = (1..=9).flat_map(|w| (1..=6).map(move |h| (w, h))).collect();
    let mut inits = Vec::new();
    for t in texts { for (w, h) in &sizes { for at_start in [true, false] { inits.push(Init { text: t, w: *w, h: *h, password: false, at_start }); } } }
    let moves = vec![D::Key(Left, false), D::Key(Right, false), D::Key(Up, false), D::Key(Down, false), D::Key(PageUp, false), D::Key(PageDown, false), D::Key(Home, false), D::Key(End, false), D::WheelDown, D::WheelUp, D::Click(0, 0), D::Click(3, 1), D::Key(Right, true), D::Key(Up, true), D::ScrollDown, D::Move(0, 1)];
    ctx.bfs(&Display { inits, depth: ctx.by(14, 22), ops: moves, name: "input-moves" });
    let mut inits = Vec::new();
    for t in texts { for (w, h) in [(5, 1), (3, 2), (8, 3), (6, 2)] { for at_start in [true, false] { inits.push(Init { text: t, w, h, password: false, at_start }); } } }
    for t in ["abc", "abcdefghijkl", "漢字漢字漢字漢字", "a\tb\tc\td\ne"] { for w in [1, 3, 5, 8] { inits.push(Init { text: t, w, h: 1 + w % 2 * 2, password: true, at_start: false }); } }
    let edits = vec![D::Key(Char('z'), false), D::Key(Char('字'), false), D::NewLine, D::Key(Backspace, false), D::Key(Delete, false), D::Key(Left, true), D::Key(Up, false), D::Key(Down, true), D::Click(4, 0), D::Click(1, 1), D::Double(2, 0), D::Drag(0, 1), D::ShiftClick(3, 0),
        D::SimpleClick(2, 1), D::Click(20, 0), D::WheelDown, D::Area(4, 2), D::Area(9, 5), D::Change(2), D::Focus(false), D::Focus(true), D::Set("12345678901234"), D::Set("x\ny\nz"), D::Ctrl('w'), D::Ctrl('u'), D::Ctrl('d'), D::Ctrl('e'), D::Ctrl('s'), D::Ctrl('k'), D::Ctrl('a'), D::Move(5, 4), D::Other(0), D::Other(1), D::Other(2), D::Other(3), D::Other(4), D::Other(5), D::Other(6), D::Other(7), D::Other(8), D::Other(9), D::Other(10), D::Other(11), D::ScrollUp, D::ScrollDown, D::Cut, D::Paste("p\nq"), D::Key(Home, false)];
    ctx.bfs(&Display { inits, depth: ctx.by(3, 4), ops: edits, name: "input-edits" });
    // degenerate areas and big contents
    let big: &'static str = Box::leak("\n".repeat(65540).into_boxed_str());
    let inits = vec![Init { text: big, w: 6, h: 4, password: false, at_start: false }, Init { text: big, w: 6, h: 4, password: false, at_start: true }];
    ctx.bfs(&Display { inits, depth: 2, ops: vec![D::Key(Up, false), D::Key(PageUp, false), D::WheelUp, D::WheelDown, D::Key(Down, false)], name: "input-many-lines" });
    // long lines and wide areas
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let long = [leak("0123456789".repeat(7000)), leak("漢a".repeat(35000)), leak(format!("{}\nab", "\t0".repeat(300))), leak(format!("{}\nz", "abcdefghij\n".repeat(80)))];
    let mut inits = Vec::new();
    for (t, w, h) in [(0, 7, 1), (0, 300, 1), (1, 8, 1), (1, 301, 2), (2, 9, 2), (2, 270, 1), (3, 5, 70), (3, 300, 40)] { for at_start in [true, false] { inits.push(Init { text: long[t], w, h, password: false, at_start }); } }
    inits.push(Init { text: long[1], w: 270, h: 1, password: true, at_start: false });
    ctx.bfs(&Display { inits, depth: ctx.by(3, 5), ops: vec![D::Key(Left, false), D::Key(Right, false), D::Key(Home, false), D::Key(End, true), D::Click(3, 0), D::Click(260, 0), D::Drag(265, 0), D::Click(1, 35), D::Key(Char('字'), false), D::Key(Backspace, false), D::Key(PageUp, false), D::Key(PageDown, false), D::Change(290), D::Change(6), D::Cut], name: "input-long-lines" });
    let mut inits = Vec::new();
    for t in texts { for (w, h) in [(0, 0), (0, 3), (3, 0), (1, 1)] { inits.push(Init { text: t, w, h, password: false, at_start: false }); } }
    ctx.bfs(&Display { inits, depth: ctx.by(3, 4), ops: vec![D::Area(0, 0), D::Area(0, 2), D::Area(2, 0), D::Area(7, 3), D::Key(Up, false), D::Key(Left, false), D::Key(Char('z'), false), D::NewLine, D::Click(0, 0), D::WheelDown, D::Key(PageDown, false), D::Key(PageUp, false)], name: "input-tiny-areas" });
}
