//! A small terminal: interprets what termimad writes (text, SGR, cursor moves,
//! clears) either as a sequence of lines or on a screen grid.
use termimad::crossterm::style::{Attribute, Color};
use termimad::CompoundStyle;
use unicode_width::UnicodeWidthChar;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Col { Idx(u8), Rgb(u8, u8, u8) }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Sty { pub fg: Option<Col>, pub bg: Option<Col>, pub ul: Option<Col>, pub attrs: u64 }
impl Sty { pub fn plain(&self) -> bool { *self == Sty::default() } }

pub fn col_of(c: Color) -> Option<Col> {
    use Color::*;
    Some(match c {
        Reset => return None,
        Black => Col::Idx(0), DarkRed => Col::Idx(1), DarkGreen => Col::Idx(2), DarkYellow => Col::Idx(3),
        DarkBlue => Col::Idx(4), DarkMagenta => Col::Idx(5), DarkCyan => Col::Idx(6), Grey => Col::Idx(7),
        DarkGrey => Col::Idx(8), Red => Col::Idx(9), Green => Col::Idx(10), Yellow => Col::Idx(11),
        Blue => Col::Idx(12), Magenta => Col::Idx(13), Cyan => Col::Idx(14), White => Col::Idx(15),
        AnsiValue(n) => Col::Idx(n),
        Rgb { r, g, b } => Col::Rgb(r, g, b),
    })
}
/// SGR parameter of the attribute -> bit
fn attr_bit(code: &str) -> Option<u32> {
    Some(match code {
        "1" => 1, "2" => 2, "3" => 3, "4" => 4, "5" => 5, "6" => 6, "7" => 7, "8" => 8, "9" => 9,
        "4:2" => 10, "4:3" => 11, "4:4" => 12, "4:5" => 13,
        "20" => 20, "51" => 51, "52" => 52, "53" => 53,
        "21" => 21,
        _ => return None,
    })
}
pub fn bit_of(a: Attribute) -> u64 {
    use Attribute::*;
    let b = match a {
        Bold => 1, Dim => 2, Italic => 3, Underlined => 4, SlowBlink => 5, RapidBlink => 6, Reverse => 7, Hidden => 8, CrossedOut => 9,
        DoubleUnderlined => 10, Undercurled => 11, Underdotted => 12, Underdashed => 13, Fraktur => 20, Framed => 51, Encircled => 52, OverLined => 53,
        _ => return 0,
    };
    1 << b
}
pub fn sty_of(cs: &CompoundStyle) -> Sty {
    let o = &cs.object_style;
    let mut attrs = 0;
    for a in Attribute::iterator() { if o.attributes.has(a) { attrs |= bit_of(a); } }
    Sty { fg: o.foreground_color.and_then(col_of), bg: o.background_color.and_then(col_of), ul: o.underline_color.and_then(col_of), attrs }
}

pub fn cw(c: char) -> usize { UnicodeWidthChar::width(c).unwrap_or(0) }
pub fn sw(s: &str) -> usize { s.chars().map(cw).sum() }

#[derive(Debug, Clone, PartialEq)]
pub enum Tok<'a> {
    Ch(char),
    Sgr(Vec<&'a str>),
    /// other control sequence: params, final byte
    Csi(&'a str, char),
    Bad(String),
}

/// cut an output into characters and control sequences
pub struct Toks<'a> { s: &'a str }
impl<'a> Toks<'a> { pub fn new(s: &'a str) -> Self { Toks { s } } }
impl<'a> Iterator for Toks<'a> {
    type Item = Tok<'a>;
    fn next(&mut self) -> Option<Tok<'a>> {
        let c = self.s.chars().next()?;
        if c != '\u{1b}' {
            self.s = &self.s[c.len_utf8()..];
            return Some(Tok::Ch(c));
        }
        let rest = &self.s[1..];
        if !rest.starts_with('[') {
            let bad = self.s.chars().take(4).collect();
            self.s = rest;
            return Some(Tok::Bad(bad));
        }
        let body = &rest[1..];
        match body.char_indices().find(|(_, c)| ('\u{40}'..='\u{7e}').contains(c)) {
            Some((i, f)) => {
                let params = &body[..i];
                self.s = &body[i + 1..];
                if !params.chars().all(|c| ('\u{20}'..='\u{3f}').contains(&c)) {
                    return Some(Tok::Bad(format!("ESC[{params}{f}")));
                }
                Some(if f == 'm' { Tok::Sgr(params.split(';').collect()) } else { Tok::Csi(params, f) })
            }
            None => { let b = self.s.to_string(); self.s = ""; Some(Tok::Bad(b)) }
        }
    }
}

pub fn apply_sgr(st: &mut Sty, params: &[&str]) -> Result<(), String> {
    let mut i = 0;
    while i < params.len() {
        let p = params[i];
        match p {
            "" | "0" => *st = Sty::default(),
            "39" => st.fg = None,
            "49" => st.bg = None,
            "59" => st.ul = None,
            "38" | "48" | "58" => {
                let num = |k: usize| params.get(k).and_then(|x| x.parse::<u8>().ok());
                let col = match params.get(i + 1) {
                    Some(&"5") => { let c = num(i + 2).map(Col::Idx); i += 2; c }
                    Some(&"2") => { let c = match (num(i + 2), num(i + 3), num(i + 4)) { (Some(r), Some(g), Some(b)) => Some(Col::Rgb(r, g, b)), _ => None }; i += 4; c }
                    _ => None,
                };
                let Some(col) = col else { return Err(format!("bad SGR {params:?}")) };
                match p { "38" => st.fg = Some(col), "48" => st.bg = Some(col), _ => st.ul = Some(col) }
            }
            _ => {
                if let Some(b) = attr_bit(p) { st.attrs |= 1 << b; }
                else if p == "22" { st.attrs &= !((1 << 1) | (1 << 2)); }
                else if p == "23" { st.attrs &= !(1 << 3); }
                else if p == "24" { st.attrs &= !(1 << 4); }
                else if p == "25" { st.attrs &= !(1 << 5); }
                else if p == "27" { st.attrs &= !(1 << 7); }
                else if p == "28" { st.attrs &= !(1 << 8); }
                else if p == "29" { st.attrs &= !(1 << 9); }
                else { return Err(format!("unknown SGR {params:?}")); }
            }
        }
        i += 1;
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Glyph { pub ch: char, pub col: usize, pub w: usize, pub st: Sty }
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Row { pub g: Vec<Glyph>, pub width: usize }
impl Row {
    pub fn text(&self) -> String { self.g.iter().map(|g| g.ch).collect() }
}

/// interpret an output made of lines (no cursor move allowed)
pub fn rows(out: &str) -> Result<Vec<Row>, String> {
    let mut rows = Vec::new();
    let mut row = Row::default();
    let mut st = Sty::default();
    for t in Toks::new(out) {
        match t {
            Tok::Ch('\n') => {
                if !st.plain() { return Err(format!("style {st:?} leaks over the end of line {}", rows.len())); }
                rows.push(std::mem::take(&mut row));
            }
            Tok::Ch(c) => {
                let w = cw(c);
                row.g.push(Glyph { ch: c, col: row.width, w, st });
                row.width += w;
            }
            Tok::Sgr(p) => apply_sgr(&mut st, &p)?,
            Tok::Csi(p, f) => return Err(format!("unexpected control sequence ESC[{p}{f}")),
            Tok::Bad(b) => return Err(format!("bad escape {b:?}")),
        }
    }
    if !st.plain() { return Err(format!("style {st:?} leaks after the end")); }
    if !row.g.is_empty() { rows.push(row); }
    Ok(rows)
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Cell { pub s: String, pub st: Sty, pub cont: bool }

/// A screen, big enough to see what's written outside of the area
#[derive(Debug, Clone)]
pub struct Screen {
    pub w: usize, pub h: usize,
    pub x: usize, pub y: usize,
    pub st: Sty,
    pub cells: Vec<Option<Cell>>,
    pub writes: u64,
    pub err: Option<String>,
}
impl Screen {
    pub fn new(w: usize, h: usize) -> Self {
        Screen { w, h, x: 0, y: 0, st: Sty::default(), cells: vec![None; w * h], writes: 0, err: None }
    }
    pub fn at(&self, x: usize, y: usize) -> Option<&Cell> { self.cells[y * self.w + x].as_ref() }
    fn fail(&mut self, s: String) { if self.err.is_none() { self.err = Some(s); } }
    fn put(&mut self, x: usize, y: usize, c: Option<Cell>) {
        if x >= self.w || y >= self.h { self.fail(format!("write outside of the terminal at {x},{y}")); return; }
        self.cells[y * self.w + x] = c;
        self.writes += 1;
    }
    pub fn feed(&mut self, out: &str) {
        for t in Toks::new(out) {
            match t {
                Tok::Ch('\n') => self.fail("raw new line written on the screen".into()),
                Tok::Ch('\r') => self.x = 0,
                Tok::Ch('\t') => { let n = (self.x / 8 + 1) * 8; self.x = n.min(self.w - 1); self.fail("raw tab written on the screen".into()); }
                Tok::Ch('\u{8}') => self.x = self.x.saturating_sub(1),
                Tok::Ch(c) => {
                    let w = cw(c);
                    if w == 0 {
                        if c.is_control() { continue; }
                        let (x, y) = (self.x, self.y);
                        if x > 0 {
                            let mut cx = x - 1;
                            if self.at(cx, y).map_or(false, |c| c.cont) && cx > 0 { cx -= 1; }
                            let i = y * self.w + cx;
                            if let Some(cell) = self.cells[i].as_mut() { cell.s.push(c); }
                        }
                        continue;
                    }
                    let (x, y, st) = (self.x, self.y, self.st);
                    if x + w > self.w { self.fail(format!("line {y} goes past the right side of the terminal")); continue; }
                    self.put(x, y, Some(Cell { s: c.to_string(), st, cont: false }));
                    for k in 1..w { self.put(x + k, y, Some(Cell { s: String::new(), st, cont: true })); }
                    self.x += w;
                }
                Tok::Sgr(p) => { let mut st = self.st; if let Err(e) = apply_sgr(&mut st, &p) { self.fail(e); } self.st = st; }
                Tok::Csi(p, f) => {
                    let n: Vec<usize> = p.split(';').map(|x| x.parse().unwrap_or(1)).collect();
                    match f {
                        'H' => { self.y = n[0].max(1) - 1; self.x = n.get(1).copied().unwrap_or(1).max(1) - 1;
                            if self.x >= self.w || self.y >= self.h { let (x, y) = (self.x, self.y); self.fail(format!("cursor moved outside of the terminal: {x},{y}")); self.x = self.x.min(self.w - 1); self.y = self.y.min(self.h - 1); } }
                        'G' => self.x = (n[0].max(1) - 1).min(self.w - 1),
                        'C' => self.x = (self.x + n[0].max(1)).min(self.w - 1),
                        'D' => self.x = self.x.saturating_sub(n[0].max(1)),
                        'K' => {
                            let (a, b) = match p { "" | "0" => (self.x, self.w), "1" => (0, self.x + 1), _ => (0, self.w) };
                            let (y, st) = (self.y, self.st);
                            for x in a..b.min(self.w) { self.put(x, y, Some(Cell { s: " ".into(), st, cont: false })); }
                        }
                        'J' => { let st = self.st; for i in 0..self.cells.len() { self.cells[i] = Some(Cell { s: " ".into(), st, cont: false }); } }
                        'h' | 'l' => {}
                        _ => self.fail(format!("unexpected control sequence ESC[{p}{f}")),
                    }
                }
                Tok::Bad(b) => self.fail(format!("bad escape {b:?}")),
            }
        }
    }
    /// cells written outside of the rectangle
    pub fn outside(&self, l: usize, t: usize, w: usize, h: usize) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        for y in 0..self.h { for x in 0..self.w {
            let inside = x >= l && x < l + w && y >= t && y < t + h;
            if !inside && self.at(x, y).is_some() { v.push((x, y)); }
        } }
        v
    }
    /// cells of the rectangle never written
    pub fn holes(&self, l: usize, t: usize, w: usize, h: usize) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        for y in t..t + h { for x in l..l + w { if self.at(x, y).is_none() { v.push((x, y)); } } }
        v
    }
    pub fn row_text(&self, l: usize, y: usize, w: usize) -> String {
        (l..l + w).map(|x| self.at(x, y).map_or("·".to_string(), |c| c.s.clone())).collect()
    }
}
