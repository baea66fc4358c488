//! What a rendered markdown text must look like, stated relationally: the source
//! is parsed by minimad (trusted), the output of termimad is interpreted by the
//! terminal of emu.rs, and the rows are matched with the source lines.
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use minimad::{Alignment, Composite, CompositeStyle, Compound, Line, Text};
use termimad::{LineStyle, ListItemsIndentationMode, MadSkin};

/// a char of the content of a line with what matters for wrapping and styling
#[derive(Debug, Clone, Copy)]
pub struct CChar { pub ch: char, pub w: usize, pub comp: usize, pub blank: bool, pub st: Sty }

pub fn over(base: Sty, o: Sty) -> Sty { Sty { fg: o.fg.or(base.fg), bg: o.bg.or(base.bg), ul: o.ul.or(base.ul), attrs: base.attrs | o.attrs } }

/// the documented composition of styles
pub fn compound_sty(skin: &MadSkin, ls: &LineStyle, c: &Compound) -> Sty {
    let mut s = sty_of(&ls.compound_style);
    if c.italic { s = over(s, sty_of(&skin.italic)); }
    if c.strikeout { s = over(s, sty_of(&skin.strikeout)); }
    if c.bold { s = over(s, sty_of(&skin.bold)); }
    if c.code { s = over(s, sty_of(&skin.inline_code)); }
    s
}

pub fn line_style<'k>(skin: &'k MadSkin, cs: CompositeStyle) -> &'k LineStyle {
    match cs {
        CompositeStyle::Code => &skin.code_block,
        CompositeStyle::Header(n) => &skin.headers[n as usize - 1],
        _ => &skin.paragraph,
    }
}

pub fn content(skin: &MadSkin, ls: &LineStyle, comp: &Composite) -> Vec<CChar> {
    let mut v = Vec::new();
    for (i, c) in comp.compounds.iter().enumerate() {
        let st = compound_sty(skin, ls, c);
        for ch in c.src.chars() {
            v.push(CChar { ch, w: cw(ch), comp: i, blank: ch.is_whitespace() && !c.code, st });
        }
    }
    v
}

/// the glyphs put before the content on the first row and on the other ones
pub fn prefixes(skin: &MadSkin, cs: CompositeStyle) -> (Vec<(char, Sty)>, Vec<(char, Sty)>) {
    let p = sty_of(&skin.paragraph.compound_style);
    match cs {
        CompositeStyle::ListItem(d) => {
            let mut a: Vec<(char, Sty)> = vec![(' ', p); d as usize];
            a.push((skin.bullet.nude_char(), sty_of(skin.bullet.compound_style())));
            a.push((' ', p));
            let b = match skin.list_items_indentation_mode {
                ListItemsIndentationMode::FirstLineOnly => vec![],
                ListItemsIndentationMode::Block => vec![(' ', p); d as usize + 2],
            };
            (a, b)
        }
        CompositeStyle::Quote => {
            let a = vec![(skin.quote_mark.nude_char(), sty_of(skin.quote_mark.compound_style())), (' ', p)];
            (a.clone(), a)
        }
        _ => (vec![], vec![]),
    }
}
pub fn pw(p: &[(char, Sty)]) -> usize { p.iter().map(|x| cw(x.0)).sum() }

/// spaces to put left and right for an alignment
pub fn pads(align: Alignment, inner: usize, outer: usize) -> (usize, usize) {
    let free = outer.saturating_sub(inner);
    match align {
        Alignment::Left | Alignment::Unspecified => (0, free),
        Alignment::Center => (free / 2, free - free / 2),
        Alignment::Right => (free, 0),
    }
}

pub fn margins(ls: &LineStyle, width: Option<usize>) -> (usize, usize) {
    match width {
        Some(w) if w < ls.left_margin + ls.right_margin + 3 => (0, 0),
        _ => (ls.left_margin, ls.right_margin),
    }
}

/// A slot in which some content is laid out: the whole width for a normal line, the
/// column for a cell
#[derive(Debug, Clone)]
pub struct Lay<'a> {
    pub c: &'a [CChar],
    /// cumulative widths of c
    pub cum: Vec<u32>,
    pub first: &'a [(char, Sty)],
    pub other: &'a [(char, Sty)],
    /// style of the padding on the left (margin and alignment) and of the inner padding
    pub outer_sty: Sty,
    pub inner_sty: Sty,
    pub left_margin: usize,
    pub right_margin: usize,
    pub align: Alignment,
    /// width in which the row is aligned
    pub outer: Option<usize>,
    /// inner justification: (width, align)
    pub inner: Option<(usize, Alignment)>,
    /// are the spaces completing on the right present ?
    pub right_completed: bool,
}
impl Lay<'_> {
    /// expected (outer left pad, inner left pad, inner right pad, outer right pad) for some content width
    pub fn layout(&self, w: usize) -> (usize, usize, usize, usize) {
        let (li, ri, iw) = match self.inner {
            Some((iw, al)) => { let (l, r) = pads(al, w, iw); (l, r, iw) }
            None => (0, 0, w),
        };
        // margins are dropped on rows which don't fit with them
        let (lm, rm) = match self.outer {
            Some(o) if iw + self.left_margin + self.right_margin > o => (0, 0),
            _ => (self.left_margin, self.right_margin),
        };
        let (lo, ro) = match self.outer {
            Some(o) => pads(self.align, iw + lm + rm, o),
            None => (0, 0),
        };
        (lo + lm, li, ri, if self.right_completed { ro + rm } else { 0 })
    }
}

impl Lay<'_> {
    #[allow(clippy::too_many_arguments)]
    fn sty_at(&self, i: usize, lo: usize, lead: usize, prefix: &[(char, Sty)], from: usize, n: usize, ri: usize) -> Sty {
        if i < lo { self.outer_sty }
        else if i < lead { self.inner_sty }
        else if i < lead + prefix.len() { prefix[i - lead].1 }
        else if i < lead + n { self.c[from + i - lead - prefix.len()].st }
        else if i < lead + n + ri { self.inner_sty }
        else { self.outer_sty }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Seg { pub from: usize, pub to: usize, pub exact: bool, pub skip: usize }

/// match glyphs with [pads] prefix content[from..to] [pads].
/// exact: the pads are the expected ones; otherwise any amount of space is accepted
pub fn cum(c: &[CChar]) -> Vec<u32> { let mut v = vec![0]; let mut s = 0; for x in c { s += x.w as u32; v.push(s); } v }
#[inline]
pub fn match_row(glyphs: &[Glyph], lay: &Lay, first: bool, from: usize, to: usize, lvl: Level, skip_hint: Option<usize>) -> bool {
    let exact = lvl != Level::Loose;
    let prefix = if first { lay.first } else { lay.other };
    let cwid: usize = (lay.cum[to] - lay.cum[from]) as usize + pw(prefix);
    let n = prefix.len() + (to - from);
    if glyphs.len() < n { return false; }
    let lead;
    if exact {
        let (lo, li, ri, ro) = lay.layout(cwid);
        if glyphs.len() != lo + li + n + ri + ro { return false; }
        lead = lo + li;
    } else {
        lead = skip_hint.unwrap_or(0);
        if glyphs.len() < lead + n { return false; }
    }
    for g in &glyphs[..lead] { if g.ch != ' ' { return false; } }
    for (g, p) in glyphs[lead..].iter().zip(prefix) { if g.ch != p.0 { return false; } }
    for (g, c) in glyphs[lead + prefix.len()..].iter().zip(&lay.c[from..to]) { if g.ch != c.ch { return false; } }
    for g in &glyphs[lead + n..] { if g.ch != ' ' { return false; } }
    if lvl == Level::Styled {
        let (lo, _, ri, _) = lay.layout(cwid);
        return glyphs.iter().enumerate().all(|(i, g)| g.ch == '…' || g.st == lay.sty_at(i, lo, lead, prefix, from, n, ri));
    }
    true
}
/// how much of a row must match: everything with the styles, the placement and the chars, or the chars only
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Level { Styled, Placed, Loose }
pub const LEVELS: [Level; 3] = [Level::Styled, Level::Placed, Level::Loose];

/// which blanks may be missing: only between two rows, also at the end, or even the ones of inline code
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Drop { BlankAtBreak, Blank, Any }
pub const DROPS: [Drop; 3] = [Drop::BlankAtBreak, Drop::Blank, Drop::Any];
/// distribute the content over the rows; returns the segments, or None when
/// the rows don't show that content
pub fn segment(rows: &[&[Glyph]], lay: &Lay, lvl: Level, drop: Drop) -> Option<Vec<Seg>> {
    let mut acc = Vec::new();
    let mut failed = std::collections::HashSet::new();
    if rec(rows, lay, lvl, drop, 0, 0, &mut acc, &mut failed) { Some(acc) } else { None }
}
#[allow(clippy::too_many_arguments)]
fn rec(rows: &[&[Glyph]], lay: &Lay, lvl: Level, drop: Drop, r: usize, p: usize, acc: &mut Vec<Seg>, failed: &mut std::collections::HashSet<(usize, usize)>) -> bool {
    let exact = lvl != Level::Loose;
    if r == rows.len() {
        // only blanks may remain
        return p == lay.c.len() || drop != Drop::BlankAtBreak && lay.c[p..].iter().all(|c| if drop == Drop::Any { c.ch.is_whitespace() } else { c.blank });
    }
    if failed.contains(&(r, p)) { return false; }
    let mut from = p;
    loop {
        // candidates for the end: the longest first
        let prefix = if r == 0 { lay.first } else { lay.other };
        let max_to = (from + rows[r].len().saturating_sub(prefix.len())).min(lay.c.len());
        let mut to = max_to + 1;
        while to > from {
            to -= 1;
            let hints: Vec<Option<usize>> = if exact { vec![None] } else {
                let lead = rows[r].iter().take_while(|g| g.ch == ' ').count();
                (0..=lead).rev().map(Some).collect()
            };
            for h in hints {
                if match_row(rows[r], lay, r == 0, from, to, lvl, h) {
                    acc.push(Seg { from, to, exact, skip: h.unwrap_or(0) });
                    if rec(rows, lay, lvl, drop, r + 1, to, acc, failed) { return true; }
                    acc.pop();
                }
            }
        }
        // a blank at the break may be dropped
        if r > 0 && from < lay.c.len() && (lay.c[from].blank || drop == Drop::Any && lay.c[from].ch.is_whitespace()) { from += 1; } else { failed.insert((r, p)); return false; }
    }
}

/// words must not be cut when they fit
pub fn check_words(lay: &Lay, segs: &[Seg], room: usize, what: &str) -> Res {
    for k in 1..segs.len() {
        let cut = segs[k].from;
        if segs[k - 1].to != cut || cut == 0 || cut >= lay.c.len() { continue; }
        let (a, b) = (lay.c[cut - 1], lay.c[cut]);
        if a.comp != b.comp || a.ch.is_whitespace() || b.ch.is_whitespace() { continue; }
        let mut i = cut;
        while i > 0 && lay.c[i - 1].comp == a.comp && !lay.c[i - 1].blank { i -= 1; }
        let mut j = cut;
        while j < lay.c.len() && lay.c[j].comp == a.comp && !lay.c[j].blank { j += 1; }
        let word: String = lay.c[i..j].iter().map(|c| c.ch).collect();
        let w: usize = lay.c[i..j].iter().map(|c| c.w).sum();
        ensure!(w > room, "word-cut", "{what}: word {word:?} (width {w}) is cut while {room} columns are available");
    }
    // what's dropped is only dropped at a break, and the rest is shown once
    Ok(())
}

pub fn check_styles(rows: &[&[Glyph]], lay: &Lay, segs: &[Seg], what: &str) -> Res {
    for (k, seg) in segs.iter().enumerate() {
        let prefix = if k == 0 { lay.first } else { lay.other };
        let cwid: usize = lay.c[seg.from..seg.to].iter().map(|c| c.w).sum::<usize>() + pw(prefix);
        let (lo, li, ri, _) = lay.layout(cwid);
        let lead = if seg.exact { lo + li } else { seg.skip };
        let g = rows[k];
        for (i, gl) in g.iter().enumerate() {
            let n = prefix.len() + seg.to - seg.from;
            let want = if i < lead {
                if seg.exact { if i < lo { lay.outer_sty } else { lay.inner_sty } } else { gl.st }
            } else if i < lead + prefix.len() { prefix[i - lead].1 }
            else if i < lead + n { lay.c[seg.from + i - lead - prefix.len()].st }
            else if seg.exact { if i < lead + n + ri { lay.inner_sty } else { lay.outer_sty } }
            else { gl.st };
            // (an ellipsis may be styled as text or as an ellipsis)
            ensure!(gl.st == want || gl.ch == '…', "style", "{what}: row {k} glyph {i} {:?} is styled {:?} instead of {:?}", gl.ch, gl.st, want);
        }
    }
    Ok(())
}

/// which aspects are to be checked
#[derive(Debug, Clone, Copy, Default)]
pub struct Want { pub width: bool, pub content: bool, pub style: bool, pub geometry: bool, pub table: bool, pub cells: bool, pub code: bool }
impl Want {
    pub const ALL: Want = Want { width: true, content: true, style: true, geometry: true, table: true, cells: true, code: true };
}

/// the widest marker+char which can't be avoided on a row
fn unavoidable(c: &[CChar], first: usize, other: usize) -> usize {
    first.max(other) + c.iter().map(|c| c.w).max().unwrap_or(0)
}

/// check a whole rendered text. `rendered` is the output of Display (rows without
/// completion on the right) for a text wrapped at `width`.
/// width: the one the text was wrapped for; outer: the one in which rows are placed
#[derive(Debug, Clone, Copy)]
pub struct Geo { pub width: Option<usize>, pub outer: Option<usize>, pub right_completed: bool }
impl Geo { pub fn display(width: Option<usize>) -> Self { Geo { width, outer: width, right_completed: false } } }
pub fn check_text(text: &Text, skin: &MadSkin, geo: Geo, all: &[Row], want: Want) -> Res {
    let Geo { width, outer, right_completed } = geo;
    let mut r = 0; // next row
    let lines = &text.lines;
    let mut i = 0;
    let wrapping = width.map_or(false, |w| w >= 3);
    let para = sty_of(&skin.paragraph.compound_style);
    while i < lines.len() {
        match &lines[i] {
            Line::Normal(comp) if comp.style == CompositeStyle::Code => {
                // a code block
                let mut j = i;
                while j < lines.len() && matches!(&lines[j], Line::Normal(c) if c.style == CompositeStyle::Code) { j += 1; }
                r = check_code_block(&lines[i..j], i, skin, geo, all, r, want)?;
                i = j;
            }
            Line::Normal(comp) => {
                let what = format!("line {i}");
                let ls = line_style(skin, comp.style);
                let c = content(skin, ls, comp);
                let (first, other) = prefixes(skin, comp.style);
                let (lm, rm) = margins(ls, outer);
                let (wlm, wrm) = margins(ls, width);
                let lay = Lay { cum: cum(&c), c: &c, first: &first, other: &other, outer_sty: para, inner_sty: sty_of(&ls.compound_style), left_margin: lm, right_margin: rm,
                    align: ls.align, outer, inner: None, right_completed };
                let total: usize = c.iter().map(|c| c.w).sum::<usize>() + pw(&first);
                let room = width.map(|w| w - wlm - wrm);
                let degenerate = room.map_or(false, |room| wrapping && unavoidable(&c, pw(&first), pw(&other)) > room);
                let k = take_rows(&what, &lay, &all[r.min(all.len())..], want, !wrapping || total <= room.unwrap())?;
                let rows = &all[r..r + k.0];
                if wrapping && !degenerate && want.width && outer == width {
                    for row in rows { ensure!(row.width <= width.unwrap(), "width", "{what}: row {:?} has width {} > {}", row.text(), row.width, width.unwrap()); }
                }
                if !degenerate && want.content && wrapping {
                    check_words(&lay, &k.1, room.unwrap() - pw(&first), &what)?;
                }
                if want.style {
                    let gl: Vec<&[Glyph]> = rows.iter().map(|r| &r.g[..]).collect();
                    check_styles(&gl, &lay, &k.1, &what)?;
                }
                r += k.0;
                i += 1;
            }
            Line::HorizontalRule | Line::CodeFence(_) => {
                ensure!(r < all.len(), "content", "line {i}: no row for the horizontal rule");
                let n = outer.unwrap_or(0);
                if want.geometry || want.content {
                    ensure!(all[r].g.len() == n && all[r].g.iter().all(|g| g.ch == skin.horizontal_rule.nude_char()), "rule",
                        "line {i}: horizontal rule is {:?} for width {width:?}", all[r].text());
                }
                if want.width && wrapping && outer == width { ensure!(all[r].width <= n, "width", "line {i}: horizontal rule has width {} > {n}", all[r].width); }
                if want.style { for g in &all[r].g { ensure!(g.st == sty_of(skin.horizontal_rule.compound_style()), "style", "line {i}: horizontal rule styled {:?}", g.st); } }
                r += 1;
                i += 1;
            }
            Line::TableRow(_) | Line::TableRule(_) => {
                let mut j = i;
                while j < lines.len() && matches!(&lines[j], Line::TableRow(_) | Line::TableRule(_)) { j += 1; }
                r = check_table(&lines[i..j], i, skin, geo, all, r, want)?;
                i = j;
            }
        }
    }
    ensure!(r == all.len(), "content", "{} rows aren't accounted for by the source, first is {:?}", all.len() - r, all[r].text());
    Ok(())
}

/// find how many rows show the content of the line
fn take_rows(what: &str, lay: &Lay, rest: &[Row], want: Want, single: bool) -> Result<(usize, Vec<Seg>), Viol> {
    let maxk = if single { 1 } else { rest.len() };
    let minrows = 1;
    for (lvl, drop) in LEVELS.into_iter().flat_map(|l| DROPS.into_iter().map(move |d| (l, d))) {
        let exact = lvl != Level::Loose;
        // number of rows: at least 1; each row but blank ones shows some content
        let mut k = minrows;
        let nonblank = lay.c.iter().filter(|c| c.ch != ' ').count();
        let mut seen = rest.first().map_or(0, |r| r.g.iter().filter(|g| g.ch != ' ').count());
        while k <= maxk.min(rest.len()) {
            if seen < nonblank && k < maxk.min(rest.len()) {
                seen += rest[k].g.iter().filter(|g| g.ch != ' ').count();
                k += 1;
                continue;
            }
            let gl: Vec<&[Glyph]> = rest[..k].iter().map(|r| &r.g[..]).collect();
            if let Some(s) = segment(&gl, lay, lvl, drop) {
                if !exact && want.geometry {
                    return viol("geometry", format!("{what}: rows {:?} aren't placed according to the alignment ({:?}) and margins ({},{}) in width {:?}",
                        rest[..k].iter().map(|r| r.text()).collect::<Vec<_>>(), lay.align, lay.left_margin, lay.right_margin, lay.outer));
                }
                return Ok((k, s));
            }
            // quick stop: the rows already show more than the content
            let shown: usize = rest[..k].iter().map(|r| r.g.iter().filter(|g| g.ch != ' ').count()).sum();
            let have = lay.c.iter().filter(|c| c.ch != ' ').count() + k * (lay.first.len() + lay.other.len());
            if shown > have { break; }
            if k < rest.len() { seen += rest[k].g.iter().filter(|g| g.ch != ' ').count(); }
            k += 1;
        }
    }
    let txt: Vec<String> = rest.iter().take(maxk.min(12)).map(|r| r.text()).collect();
    viol("content", format!("{what}: content {:?} isn't what the rows show: {txt:?}", lay.c.iter().map(|c| c.ch).collect::<String>()))
}

#[allow(clippy::too_many_arguments)]
fn check_code_block(lines: &[Line], i0: usize, skin: &MadSkin, geo: Geo, all: &[Row], mut r: usize, want: Want) -> Result<usize, Viol> {
    let Geo { width, outer, right_completed } = geo;
    let ls = &skin.code_block;
    let (lm, rm) = margins(ls, outer);
    let (wlm, wrm) = margins(ls, width);
    let wrapping = width.map_or(false, |w| w >= 3);
    let para = sty_of(&skin.paragraph.compound_style);
    let r0 = r;
    let mut all_segs: Vec<(usize, usize, Vec<CChar>, Vec<Seg>)> = Vec::new();
    let mut degenerate = false;
    for (k, line) in lines.iter().enumerate() {
        let Line::Normal(comp) = line else { unreachable!() };
        let c = content(skin, ls, comp);
        let total: usize = c.iter().map(|c| c.w).sum();
        let room = width.map(|w| w - wlm - wrm);
        if wrapping && unavoidable(&c, 0, 0) > room.unwrap() { degenerate = true; }
        // placement isn't checked at this step
        let lay = Lay { cum: cum(&c), c: &c, first: &[], other: &[], outer_sty: para, inner_sty: sty_of(&ls.compound_style), left_margin: lm, right_margin: rm,
            align: ls.align, outer: None, inner: None, right_completed };
        let what = format!("line {} (code)", i0 + k);
        let (n, segs) = take_rows(&what, &lay, &all[r.min(all.len())..], Want { geometry: false, ..want }, !wrapping || total <= room.unwrap())?;
        if want.content && wrapping && !degenerate { check_words(&lay, &segs, room.unwrap(), &what)?; }
        all_segs.push((r, n, c, segs));
        r += n;
    }
    let rows = &all[r0..r];
    if wrapping && !degenerate && outer == width && (want.width || want.code) {
        for row in rows { ensure!(row.width <= width.unwrap(), "width", "code block at line {i0}: row {:?} has width {} > {}", row.text(), row.width, width.unwrap()); }
    }
    // the block is a rectangle as wide as its widest row
    if want.code || want.geometry || want.style {
        let max_bw = rows.iter().map(|r| r.width).max().unwrap_or(0);
        let mut best: Option<Level> = None;
        for bw in 0..=max_bw {
            let mut worst = Level::Styled;
            let mut widest = 0;
            for (a, n, c, segs) in &all_segs {
                for k in 0..*n {
                    let s = segs[k];
                    let row = &all[a + k];
                    // the content of the row, as matched, or with some of the blanks around the breaks
                    let mut cands = vec![(s.from, s.to)];
                    let lo = if k == 0 { 0 } else { segs[k - 1].from };
                    let hi = if k + 1 < *n { segs[k + 1].to } else { c.len() };
                    let mut f = s.from; while f > lo && c[f - 1].blank { f -= 1; }
                    let mut t = s.to; while t < hi && c[t].blank { t += 1; }
                    let mut f2 = s.from; while f2 < s.to && c[f2].blank { f2 += 1; }
                    let mut t2 = s.to; while t2 > f2 && c[t2 - 1].blank { t2 -= 1; }
                    for ff in f..=f2 { for tt in t2..=t { if ff <= tt { cands.push((ff, tt)); } } }
                    let lay = Lay { cum: cum(c), c, first: &[], other: &[], outer_sty: para, inner_sty: sty_of(&ls.compound_style), left_margin: lm, right_margin: rm,
                        align: ls.align, outer, inner: Some((bw, Alignment::Left)), right_completed };
                    let mut lvl = Level::Loose;
                    'm: for l in [Level::Styled, Level::Placed] {
                        for (f, t) in &cands {
                            let w: usize = c[*f..*t].iter().map(|c| c.w).sum();
                            if w <= bw && match_row(&row.g, &lay, k == 0, *f, *t, l, None) { lvl = l; widest = widest.max(w); break 'm; }
                        }
                    }
                    if lvl == Level::Loose || (lvl == Level::Placed && worst == Level::Styled) { worst = lvl; }
                    if worst == Level::Loose { break; }
                }
            }
            if worst != Level::Loose && widest == bw && (best.is_none() || worst == Level::Styled) { best = Some(worst); }
            if best == Some(Level::Styled) { break; }
        }
        let show = || rows.iter().map(|r| r.text()).collect::<Vec<_>>();
        ensure!(best.is_some() || !(want.code || want.geometry), "code-block", "code block at line {i0} isn't a rectangle placed by margins {lm},{rm} and align {:?} in width {width:?}: {:?}", ls.align, show());
        ensure!(best == Some(Level::Styled) || !want.style, "style", "code block at line {i0} isn't styled as it should in width {width:?}: {:?}", show());
    }
    Ok(r)
}

/// natural width of a cell: marker and content
fn cell_width(skin: &MadSkin, comp: &Composite) -> usize {
    let ls = line_style(skin, comp.style);
    content(skin, ls, comp).iter().map(|c| c.w).sum::<usize>() + pw(&prefixes(skin, comp.style).0)
}

#[allow(clippy::too_many_arguments)]
fn check_table(lines: &[Line], i0: usize, skin: &MadSkin, geo: Geo, all: &[Row], r0: usize, want: Want) -> Result<usize, Viol> {
    let Geo { width, outer, right_completed } = geo;
    let tbc = skin.table_border_chars;
    let tst = sty_of(&skin.table.compound_style);
    let para = sty_of(&skin.paragraph.compound_style);
    let n_src = lines.iter().map(|l| match l { Line::TableRow(r) => r.cells.len(), Line::TableRule(r) => r.cells.len(), _ => 0 }).max().unwrap_or(0);
    let w = width.unwrap_or(usize::MAX);
    let n = if w >= 4 * n_src + 1 { n_src } else { (w.max(1) - 1) / 4 };
    let what = format!("table at line {i0}");
    if n == 0 {
        // no room for a column: nothing is specified but the number of lines
        let mut r = r0;
        let mut left = lines.len();
        while left > 0 { ensure!(r < all.len(), "table", "{what}: missing rows"); r += 1; left -= 1; }
        return Ok(r);
    }
    // the rows of the table: all the ones with borders
    let is_border = |g: &Glyph| [tbc.vertical, tbc.left_junction, tbc.right_junction, tbc.cross, tbc.top_left_corner, tbc.top_right_corner,
        tbc.bottom_left_corner, tbc.bottom_right_corner, tbc.top_junction, tbc.bottom_junction].contains(&g.ch) && g.st == tst;
    let borders = |row: &Row, widths: Option<&[usize]>| -> Vec<usize> {
        let _ = widths;
        row.g.iter().filter(|g| is_border(g)).map(|g| g.col).collect()
    };
    ensure!(r0 < all.len(), "table", "{what}: no row");
    let b0 = borders(&all[r0], None);
    ensure!(b0.len() == n + 1, "table", "{what}: row {:?} has {} borders instead of {} for {} columns in width {width:?}", all[r0].text(), b0.len(), n + 1, n);
    let widths: Vec<usize> = b0.windows(2).map(|x| x[1] - x[0] - 1).collect();
    // geometry
    let tw = b0[n] + 1 - b0[0];
    let (lpo, rpo) = outer.map_or((0, 0), |w| pads(skin.table.align, tw, w));
    if want.table || want.geometry {
        ensure!(b0[0] == lpo, "table", "{what}: starts at column {} instead of {lpo} (align {:?} width {width:?})", b0[0], skin.table.align);
    }
    if want.width || want.table { ensure!(tw <= w, "table-width", "{what}: width {tw} > {w}"); }
    let natural: Vec<usize> = (0..n_src).map(|c| lines.iter().filter_map(|l| match l { Line::TableRow(r) => r.cells.get(c).map(|x| cell_width(skin, x)), _ => None }).max().unwrap_or(0).max(3)).collect();
    if want.table {
        for (c, cwid) in widths.iter().enumerate() {
            ensure!(*cwid >= 3, "table", "{what}: column {c} has width {cwid}");
        }
        let nat_total: usize = natural.iter().sum::<usize>() + n_src + 1;
        if n == n_src {
            if nat_total <= w { ensure!(widths == natural, "table-natural", "{what}: columns have widths {widths:?} while the natural ones, {natural:?}, fit in {width:?}"); }
            else { for c in 0..n { ensure!(widths[c] <= natural[c], "table-natural", "{what}: column {c} is {} wide, more than its content ({})", widths[c], natural[c]); } }
        }
    }
    // walk
    let mut aligns = vec![Alignment::Center; n];
    let mut r = r0;
    for (k, line) in lines.iter().enumerate() {
        ensure!(r < all.len(), "table", "{what}: line {} isn't shown", i0 + k);
        match line {
            Line::TableRule(rule) => {
                let row = &all[r];
                // a rule at the start is a top one even when it's also the end
                let (a, b, c) = if k == 0 { (tbc.top_left_corner, tbc.top_junction, tbc.top_right_corner) }
                    else if k == lines.len() - 1 { (tbc.bottom_left_corner, tbc.bottom_junction, tbc.bottom_right_corner) }
                    else { (tbc.left_junction, tbc.cross, tbc.right_junction) };
                if want.table || want.content {
                    let mut exp: String = " ".repeat(lpo);
                    exp.push(a);
                    for (ci, cwid) in widths.iter().enumerate() {
                        if ci > 0 { exp.push(b); }
                        for _ in 0..*cwid { exp.push(tbc.horizontal); }
                    }
                    exp.push(c);
                    if right_completed { exp.push_str(&" ".repeat(rpo)); }
                    ensure!(row.text() == exp, "table-rule", "{what}: rule {:?} instead of {:?}", row.text(), exp);
                }
                if want.style { for g in &row.g { let e = if g.col < lpo || g.col >= lpo + tw { para } else { tst }; ensure!(g.st == e, "style", "{what}: rule glyph {:?} styled {:?}", g.ch, g.st); } }
                for c in 0..n { aligns[c] = rule.cells.get(c).copied().unwrap_or(Alignment::Unspecified); }
                r += 1;
            }
            Line::TableRow(tr) => {
                // contents of the columns
                let cells: Vec<(Vec<CChar>, Vec<(char, Sty)>, Vec<(char, Sty)>, Sty)> = (0..n).map(|c| match tr.cells.get(c) {
                    Some(comp) => {
                        let ls = line_style(skin, comp.style);
                        let (a, b) = prefixes(skin, comp.style);
                        (content(skin, ls, comp), a, b, sty_of(&ls.compound_style))
                    }
                    None => (vec![], vec![], vec![], para),
                }).collect();
                let degenerate = cells.iter().zip(&widths).any(|(c, w)| unavoidable(&c.0, pw(&c.1), pw(&c.2)) > *w);
                // how many rows does it take ?
                let mut done = false;
                let mut k_rows = 1;
                let mut fail: Option<Viol> = None;
                while !done && r + k_rows <= all.len() {
                    // last one must be a row with vertical borders at the right places
                    let row = &all[r + k_rows - 1];
                    let bs: Vec<&Glyph> = row.g.iter().filter(|g| is_border(g)).collect();
                    let ok_b = bs.len() == n + 1 && bs.iter().all(|g| g.ch == tbc.vertical);
                    if !ok_b || (!degenerate && bs.iter().map(|g| g.col).ne(b0.iter().copied())) {
                        if k_rows == 1 || (ok_b && (want.table || want.width)) {
                            if k_rows == 1 || fail.is_none() || ok_b {
                                return viol("table", format!("{what}: row {:?} isn't aligned with the borders {b0:?} of {:?}", row.text(), all[r0].text()));
                            }
                        }
                        break;
                    }
                    if want.width && !degenerate && outer == width { ensure!(row.width <= w, "width", "{what}: row {:?} wider than {w}", row.text()); }
                    // split in columns
                    let mut cols: Vec<Vec<Vec<Glyph>>> = vec![Vec::new(); n];
                    for row in &all[r..r + k_rows] {
                        let mut ci: isize = -1;
                        let mut cur: Vec<Vec<Glyph>> = vec![Vec::new(); n];
                        for g in &row.g {
                            if is_border(g) { ci += 1; if ci as usize > n { break; } continue; }
                            if ci >= 0 && (ci as usize) < n { cur[ci as usize].push(*g); }
                        }
                        for c in 0..n { cols[c].push(std::mem::take(&mut cur[c])); }
                    }
                    fail = None;
                    let mut all_ok = true;
                    for c in 0..n {
                        let (cc, first, other, ist) = &cells[c];
                        match match_cell(&cols[c], cc, first, other, *ist, widths[c], aligns[c], para, want, &format!("{what}, source line {}, column {c}", i0 + k), degenerate) {
                            Ok(true) => {}
                            Ok(false) => { all_ok = false; }
                            Err(v) => { all_ok = false; fail = Some(v); }
                        }
                    }
                    if all_ok { done = true; break; }
                    k_rows += 1;
                }
                if !done {
                    if let Some(v) = fail { return Err(v); }
                    if want.content || want.cells || want.style || want.table {
                        return viol("cells", format!("{what}: source line {} {:?} isn't what's shown in columns {widths:?} by {:?} (aligns {aligns:?})", i0 + k,
                            tr.cells.iter().map(|c| c.compounds.iter().map(|c| c.src).collect::<String>()).collect::<Vec<_>>(),
                            all[r..(r + 6).min(all.len())].iter().map(|r| r.text()).collect::<Vec<_>>()));
                    }
                    return viol("cells", "unreadable table");
                }
                // natural tables don't wrap
                if want.table || want.content {
                    let wrapped_needed = (0..n).any(|c| tr.cells.get(c).map_or(0, |x| cell_width(skin, x)) > widths[c]);
                    ensure!(wrapped_needed || k_rows == 1, "table-natural", "{what}: source line {} takes {k_rows} rows while it fits", i0 + k);
                }
                if want.style {
                    for row in &all[r..r + k_rows] { for g in &row.g { if g.col < lpo || (!degenerate && g.col >= lpo + tw) { ensure!(g.st == para, "style", "{what}: padding {:?} styled {:?}", g.ch, g.st); } } }
                }
                if right_completed && (want.table || want.geometry) && !degenerate {
                    for row in &all[r..r + k_rows] { let ow = outer.unwrap_or(tw); ensure!(row.width == ow.max(tw), "table", "{what}: row {:?} isn't completed to {w}", row.text()); }
                }
                r += k_rows;
            }
            _ => unreachable!(),
        }
    }
    Ok(r)
}

/// match the glyphs of a column over several rows with the content of a cell
#[allow(clippy::too_many_arguments)]
fn match_cell(rows: &[Vec<Glyph>], cc: &[CChar], first: &[(char, Sty)], other: &[(char, Sty)], ist: Sty, w: usize, align: Alignment, para: Sty, want: Want, what: &str, degenerate: bool) -> Result<bool, Viol> {
    // the last rows may be blank fillings
    let blank = |r: &Vec<Glyph>| r.iter().all(|g| g.ch == ' ') && r.iter().map(|g| g.w).sum::<usize>() == w;
    let max = rows.len();
    let lay = Lay { cum: cum(cc), c: cc, first, other, outer_sty: para, inner_sty: ist, left_margin: 0, right_margin: 0, align: Alignment::Left, outer: None, inner: Some((w, align)), right_completed: true };
    for (lvl, drop) in LEVELS.into_iter().flat_map(|l| DROPS.into_iter().map(move |d| (l, d))) {
        let exact = lvl != Level::Loose;
        for used in (1..=max).rev() {
            if !rows[used..].iter().all(blank) { break; }
            let gl: Vec<&[Glyph]> = rows[..used].iter().map(|r| &r[..]).collect();
            if let Some(segs) = segment(&gl, &lay, lvl, drop) {
                if !exact && (want.cells || want.geometry || want.table) && !degenerate {
                    return viol("cell-align", format!("{what}: content isn't aligned {align:?} in {w}: {:?}", rows.iter().map(|r| r.iter().map(|g| g.ch).collect::<String>()).collect::<Vec<_>>()));
                }
                if want.content || want.cells { if !degenerate { check_words(&lay, &segs, w.saturating_sub(pw(first)), what)?; } }
                if want.style && exact {
                    check_styles(&gl, &lay, &segs, what)?;
                    for row in &rows[used..] { for g in row { ensure!(g.st == para, "style", "{what}: blank styled {:?}", g.st); } }
                }
                return Ok(true);
            }
        }
    }
    Ok(false)
}
