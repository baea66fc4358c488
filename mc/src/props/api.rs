//! Styles as values: their changes and what's written with them (C30)
use super::fit::glyphs as glyphs_of;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use serde_json::json;
use std::fmt;
use termimad::crossterm::style::{Attribute, Color, ContentStyle};
use termimad::crossterm::terminal::ClearType;
use termimad::minimad::Alignment;
use termimad::*;

const ATTRS: [Attribute; 10] = [Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::Reverse, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined, Attribute::SlowBlink, Attribute::RapidBlink];

pub fn run(ctx: &Ctx) {
    ctx.bfs(&Styles { nattrs: ctx.by(3, 5) });
    written(ctx);
    constructors(ctx);
}

/// the reference: what was set
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
struct R { fg: Option<u8>, bg: Option<u8>, ul: Option<u8>, attrs: u16, ch: char }
const COLORS: [Color; 4] = [Color::AnsiValue(33), Color::Rgb { r: 1, g: 2, b: 3 }, Color::DarkRed, Color::Reset];
const CHARS: [char; 3] = ['x', '漢', '…'];
impl R {
    fn style(&self) -> CompoundStyle {
        let mut o = ContentStyle::new();
        o.foreground_color = self.fg.map(|c| COLORS[c as usize]);
        o.background_color = self.bg.map(|c| COLORS[c as usize]);
        o.underline_color = self.ul.map(|c| COLORS[c as usize]);
        for (i, a) in ATTRS.iter().enumerate() { if self.attrs >> i & 1 == 1 { o.attributes.set(*a); } }
        CompoundStyle::from(o)
    }
    fn sty(&self) -> Sty { sty_of(&self.style()) }
}
struct F<G: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(G);
impl<G: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Display for F<G> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (self.0)(f) }
}
fn bytes(f: impl FnOnce(&mut Vec<u8>)) -> Result<String, Viol> {
    let mut v = Vec::new();
    guard(|| f(&mut v))?;
    String::from_utf8(v).or_else(|_| viol("utf8", "not utf8"))
}
/// what's written is the text with this style, which is then reset
fn is_written(out: &str, text: &str, st: Sty, what: &str) -> Res {
    let g = glyphs_of(&format!("{out}Z\x1b[59m"))?;
    let shown: String = g.iter().map(|g| g.ch).collect();
    ensure!(shown == format!("{text}Z"), "text", "{what}: {out:?} instead of {text:?}");
    for x in &g[..g.len() - 1] { ensure!(x.st == st, "style", "{what}: {:?} is {:?} instead of {st:?}", x.ch, x.st); }
    // (crossterm doesn't reset an underline color written without attribute)
    let left = g.last().unwrap().st;
    ensure!(left.plain() || st.ul.is_some() && Sty { ul: None, ..left }.plain(), "reset", "{what}: the style isn't reset after {out:?}");
    Ok(())
}
fn check_values(cs: &CompoundStyle, r: &R, what: &dyn Fn() -> String) -> Res {
    let want = r.style();
    ensure!(cs.get_fg() == want.object_style.foreground_color, "fg", "{}: foreground is {:?}", what(), cs.get_fg());
    ensure!(cs.get_bg() == want.object_style.background_color, "bg", "{}: background is {:?}", what(), cs.get_bg());
    for (i, a) in ATTRS.iter().enumerate() { ensure!(cs.has_attr(*a) == (r.attrs >> i & 1 == 1) && cs.attrs().has(*a) == cs.has_attr(*a), "attribute", "{}: has_attr({a:?}) is {}", what(), cs.has_attr(*a)); }
    ensure!(*cs == want, "value", "{}: {cs:?} instead of {want:?}", what());
    Ok(())
}
fn check_compound(cs: &CompoundStyle, r: &R, texts: &[&str], counts: &[usize], what: &dyn Fn() -> String) -> Res {
    let st = r.sty();
    for t in texts {
        is_written(&bytes(|v| cs.queue(v, *t).unwrap())?, t, st, &format!("{}: queue", what()))?;
        is_written(&bytes(|v| cs.queue_str(v, t.to_string()).unwrap())?, t, st, &format!("{}: queue_str", what()))?;
        is_written(&guard(|| cs.apply_to(*t).to_string())?, t, st, &format!("{}: apply_to", what()))?;
        is_written(&bytes(|v| CropWriter::new(v, 1000).queue_str(cs, t).unwrap())?, t, st, &format!("{}: CropWriter", what()))?;
        for n in counts {
            let n = *n;
            let ls = LineStyle::from(cs.clone());
            is_written(&guard(|| F(|f| cs.repeat_string(f, t, n)).to_string())?, &t.repeat(n), st, &format!("{}: repeat_string {n}", what()))?;
            is_written(&guard(|| F(|f| ls.repeat_string(f, t, n)).to_string())?, &t.repeat(n), st, &format!("{}: LineStyle::repeat_string {n}", what()))?;
        }
    }
    for n in counts {
        let n = *n;
        let ls = LineStyle::from(cs.clone());
        for c in CHARS {
            let want = c.to_string().repeat(n);
            is_written(&guard(|| F(|f| cs.repeat_char(f, c, n)).to_string())?, &want, st, &format!("{}: repeat_char {n}", what()))?;
            is_written(&guard(|| F(|f| ls.repeat_char(f, c, n)).to_string())?, &want, st, &format!("{}: LineStyle::repeat_char {n}", what()))?;
            let f = Filling::from_char(c);
            is_written(&bytes(|v| f.queue_styled(v, cs, n).unwrap())?, &want, st, &format!("{}: Filling {n}", what()))?;
            check_char(&cs.style_char(c), &R { ch: c, ..*r }, &[n], &|| format!("{}: style_char", what()))?;
        }
        is_written(&guard(|| F(|f| cs.repeat_space(f, n)).to_string())?, &" ".repeat(n), st, &format!("{}: repeat_space {n}", what()))?;
        is_written(&guard(|| F(|f| ls.repeat_space(f, n)).to_string())?, &" ".repeat(n), st, &format!("{}: LineStyle::repeat_space {n}", what()))?;
    }
    // only a color
    let after = |out: &str| -> Result<Sty, Viol> { let mut scr = Screen::new(4, 1); scr.feed(&format!("{out}Z")); let c = scr.at(0, 0).unwrap(); ensure!(c.s == "Z", "text", "{}: {out:?}", what()); Ok(c.st) };
    let fg = Sty { fg: st.fg, ..Sty::default() };
    let bg = Sty { bg: st.bg, ..Sty::default() };
    ensure!(after(&bytes(|v| cs.queue_fg(v).unwrap())?)? == fg && after(&bytes(|v| CropWriter::new(v, 3).queue_fg(cs).unwrap())?)? == fg, "queue-fg", "{}: queue_fg", what());
    let qbg = bytes(|v| cs.queue_bg(v).unwrap())?;
    ensure!(after(&qbg)? == bg && after(&bytes(|v| CropWriter::new(v, 3).queue_bg(cs).unwrap())?)? == bg, "queue-bg", "{}: queue_bg", what());
    for (t, e) in [(ClearType::UntilNewLine, "\x1b[K"), (ClearType::All, "\x1b[2J"), (ClearType::FromCursorDown, "\x1b[J"), (ClearType::CurrentLine, "\x1b[2K")] {
        let out = bytes(|v| cs.clear(v, t).unwrap())?;
        ensure!(out.ends_with(e), "clear", "{}: clear({t:?}) writes {out:?}", what());
        ensure!(after(&out[..out.len() - e.len()])? == bg, "clear", "{}: clear({t:?}) writes {out:?}", what());
    }
    Ok(())
}
fn check_char(sc: &StyledChar, r: &R, counts: &[usize], what: &dyn Fn() -> String) -> Res {
    check_values(sc.compound_style(), r, what)?;
    ensure!(sc.nude_char() == r.ch && sc.get_char() == r.ch, "char", "{}: the char is {:?}, {:?}", what(), sc.nude_char(), sc.get_char());
    ensure!(sc.get_fg() == r.style().get_fg() && sc.get_bg() == r.style().get_bg(), "char-color", "{}: colors {:?} {:?}", what(), sc.get_fg(), sc.get_bg());
    let st = r.sty();
    let one = r.ch.to_string();
    is_written(&guard(|| sc.to_string())?, &one, st, &format!("{}: displayed char", what()))?;
    is_written(&bytes(|v| sc.queue(v).unwrap())?, &one, st, &format!("{}: queued char", what()))?;
    for n in counts {
        is_written(&guard(|| sc.repeated(*n).to_string())?, &one.repeat(*n), st, &format!("{}: repeated {n}", what()))?;
        is_written(&bytes(|v| sc.queue_repeat(v, *n).unwrap())?, &one.repeat(*n), st, &format!("{}: queue_repeat {n}", what()))?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Fg(u8), Bg(u8), FgBg(u8, u8), Add(u8), Remove(u8), Over(R), Style(R), Char(char) }
#[derive(Clone)]
struct S { r: R, cs: CompoundStyle, ls: LineStyle, sc: StyledChar, bar: ScrollBarStyle }
struct Styles { nattrs: u8 }
impl Styles {
    fn over(&self) -> Vec<R> {
        let mut v = Vec::new();
        for fg in [None, Some(0), Some(3)] { for bg in [None, Some(1), Some(3)] { for attrs in [0u16, 1, 0b110] { v.push(R { fg, bg, ul: None, attrs, ch: 'x' }); } } }
        for fg in [None, Some(1)] { for ul in [0, 2] { v.push(R { fg, bg: None, ul: Some(ul), attrs: 0b1000, ch: 'x' }); } }
        v
    }
}
impl Model for Styles {
    type S = S;
    type Op = Op;
    fn name(&self) -> String { "style-changes".into() }
    fn bounds(&self) -> String { format!("all styles reachable from the default one by setting one of 4 colors, adding or removing one of {} attributes, overwriting with or setting one of {} styles, changing the char, as a CompoundStyle, a LineStyle, a StyledChar and a ScrollBarStyle, until closure", self.nattrs, self.over().len()) }
    fn inits(&self) -> Vec<(String, S)> {
        let cs = CompoundStyle::default();
        let r = R { fg: None, bg: None, ul: None, attrs: 0, ch: 'x' };
        let mut ls = LineStyle::new(cs.clone(), Alignment::Center);
        ls.left_margin = 1; ls.right_margin = 2;
        vec![("default".into(), S { r, ls, sc: StyledChar::nude('x'), bar: ScrollBarStyle::new(), cs })]
    }
    fn ops(&self, _: &S) -> Vec<Op> {
        let mut v = vec![Op::FgBg(0, 1), Op::FgBg(2, 3)];
        for c in 0..4 { v.push(Op::Fg(c)); v.push(Op::Bg(c)); }
        for a in 0..self.nattrs { v.push(Op::Add(a)); v.push(Op::Remove(a)); }
        for r in self.over() { v.push(Op::Over(r)); if r.attrs > 0 { v.push(Op::Style(r)); } }
        for c in CHARS { v.push(Op::Char(c)); }
        v
    }
    fn max_depth(&self) -> usize { 60 }
    fn key(&self, s: &S) -> Option<u128> { Some(key128(&(s.r, format!("{:?} {:?} {:?} {:?}", s.cs, s.ls, s.sc, s.bar)))) }
    fn step(&self, s: &S, op: &Op, l: &mut Local) -> Result<S, Viol> {
        let mut n = s.clone();
        let via = |sc: &mut StyledChar, f: &dyn Fn(&mut CompoundStyle)| { let mut c = sc.compound_style().clone(); f(&mut c); sc.set_compound_style(c); };
        let col = |c: u8| COLORS[c as usize];
        guard(|| match *op {
            Op::Fg(c) => { n.r.fg = Some(c); n.cs.set_fg(col(c)); n.ls.set_fg(col(c)); n.sc.set_fg(col(c)); }
            Op::Bg(c) => { n.r.bg = Some(c); n.cs.set_bg(col(c)); n.ls.set_bg(col(c)); n.sc.set_bg(col(c)); n.bar.set_bg(col(c)); }
            Op::FgBg(f, b) => { n.r.fg = Some(f); n.r.bg = Some(b); n.cs.set_fgbg(col(f), col(b)); n.ls.set_fgbg(col(f), col(b)); via(&mut n.sc, &|c| c.set_fgbg(col(f), col(b))); }
            Op::Add(a) => { let a2 = ATTRS[a as usize]; n.r.attrs |= 1 << a; n.cs.add_attr(a2); n.ls.add_attr(a2); via(&mut n.sc, &|c| c.add_attr(a2)); }
            Op::Remove(a) => { let a2 = ATTRS[a as usize]; n.r.attrs &= !(1 << a); n.cs.remove_attr(a2); n.ls.compound_style.remove_attr(a2); via(&mut n.sc, &|c| c.remove_attr(a2)); }
            Op::Over(o) => { n.r.fg = o.fg.or(n.r.fg); n.r.bg = o.bg.or(n.r.bg); n.r.ul = o.ul.or(n.r.ul); n.r.attrs |= o.attrs; let os = o.style(); n.cs.overwrite_with(&os); n.ls.compound_style.overwrite_with(&os); via(&mut n.sc, &|c| c.overwrite_with(&os)); }
            Op::Style(o) => { n.r = R { ch: n.r.ch, ..o }; n.cs = o.style(); n.ls.compound_style = o.style(); n.sc.set_compound_style(o.style()); }
            Op::Char(c) => { n.r.ch = c; n.sc.set_char(c); }
        })?;
        let what = || format!("{op:?} on {:?}", s.r);
        check_values(&n.cs, &n.r, &|| format!("{}: compound style", what()))?;
        check_values(&n.ls.compound_style, &n.r, &|| format!("{}: line style", what()))?;
        ensure!(n.ls.align == Alignment::Center && (n.ls.left_margin, n.ls.right_margin) == (1, 2), "line-style", "{}: {:?}", what(), n.ls);
        check_char(&n.sc, &n.r, &[0, 1, 3], &|| format!("{}: styled char", what()))?;
        let bg = s.bar.track.get_bg();
        let want = if let Op::Bg(c) = op { Some(col(*c)) } else { bg };
        let first = ScrollBarStyle::new();
        for (name, sc, f) in [("track", &n.bar.track, &first.track), ("thumb", &n.bar.thumb, &first.thumb)] {
            ensure!(sc.get_bg() == want && sc.get_fg() == f.get_fg() && sc.nude_char() == f.nude_char(), "scrollbar-style", "{}: {name} {sc:?}", what());
            let st = Sty { bg: want.and_then(col_of), ..sty_of(f.compound_style()) };
            is_written(&sc.to_string(), &f.nude_char().to_string(), st, &format!("{}: {name}", what()))?;
        }
        check_compound(&n.cs, &n.r, &["", "a漢"], &[0, 2], &what)?;
        l.trace(h64(&format!("{:?}", n.r)));
        if n.r != s.r { l.nontrivial(); }
        Ok(n)
    }
}

/// everything which can be written with every set of attributes
fn written(ctx: &Ctx) {
    let texts = ["", "a", "é漢 b", "0123456789"];
    ctx.family(&Fam {
        name: "written-styles".into(),
        bounds: format!("all sets of the 10 attributes, 5 foregrounds, 5 backgrounds, texts {texts:?}, repeated 0, 1, 2 or 7 times"),
        n: 1024 * 25,
        d: |i| json!({"attributes": format!("{:010b}", i % 1024), "fg": i / 1024 % 5, "bg": i / 1024 / 5}),
        c: |i, l: &mut Local| {
            let c = |k: u64| if k == 0 { None } else { Some(k as u8 - 1) };
            let r = R { fg: c(i / 1024 % 5), bg: c(i / 5120), ul: None, attrs: (i % 1024) as u16, ch: CHARS[(i % 3) as usize] };
            let mut cs = CompoundStyle::new(r.style().get_fg(), r.style().get_bg(), Default::default());
            for (k, a) in ATTRS.iter().enumerate() { if r.attrs >> k & 1 == 1 { cs.add_attr(*a); } }
            let what = || format!("{r:?}");
            check_values(&cs, &r, &what)?;
            check_compound(&cs, &r, &texts, &[0, 1, 2, 7], &what)?;
            check_char(&StyledChar::new(cs, r.ch), &r, &[0, 1, 2, 7, 40], &what)?;
            l.trace(h64(&format!("{r:?}")));
            l.nontrivial();
            Ok(())
        },
    });
}
/// styles and colors built in all ways
fn constructors(ctx: &Ctx) {
    let cols: Vec<Color> = (0..=255u8).map(Color::AnsiValue).chain(COLORS).chain([Color::Rgb { r: 255, g: 0, b: 128 }]).collect();
    let n = cols.len() as u64;
    ctx.family(&Fam {
        name: "style-constructors".into(),
        bounds: format!("all constructors of styles, styled chars and colors, for all pairs of {n} colors and all attributes"),
        n: n * n,
        d: |i| json!({"fg": format!("{:?}", cols[(i % n) as usize]), "bg": format!("{:?}", cols[(i / n) as usize])}),
        c: |i, l: &mut Local| {
            let (f, b) = (cols[(i % n) as usize], cols[(i / n) as usize]);
            let eq = |cs: &CompoundStyle, fg: Option<Color>, bg: Option<Color>, a: Option<Attribute>, what: &str| -> Res {
                ensure!(cs.get_fg() == fg && cs.get_bg() == bg && ATTRS.iter().all(|x| cs.has_attr(*x) == (Some(*x) == a)) && cs.object_style.underline_color.is_none(), "constructor", "{what} {f:?} {b:?} {a:?} gives {cs:?}");
                Ok(())
            };
            eq(&CompoundStyle::with_fgbg(f, b), Some(f), Some(b), None, "with_fgbg")?;
            eq(&CompoundStyle::new(Some(f), Some(b), Default::default()), Some(f), Some(b), None, "new")?;
            eq(&CompoundStyle::with_fg(f), Some(f), None, None, "with_fg")?;
            eq(&CompoundStyle::with_bg(b), None, Some(b), None, "with_bg")?;
            let sc = StyledChar::from_fg_char(f, 'q');
            eq(sc.compound_style(), Some(f), None, None, "from_fg_char")?;
            is_written(&sc.to_string(), "q", Sty { fg: col_of(f), ..Sty::default() }, "from_fg_char")?;
            // a scrollbar given as one char
            let full = CompoundStyle::new(Some(f), Some(b), Attribute::Bold.into());
            for (cs, tc, hc) in [(full, b, f), (CompoundStyle::with_fg(f), gray(5), f), (CompoundStyle::with_bg(b), b, gray(21)), (CompoundStyle::default(), gray(5), gray(21))] {
                let bar = ScrollBarStyle::from(StyledChar::new(cs.clone(), '漢'));
                ensure!(bar.track == StyledChar::from_fg_char(tc, '漢') && bar.thumb == StyledChar::from_fg_char(hc, '漢'), "scrollbar", "a scrollbar made from {cs:?} is {bar:?}");
                is_written(&bar.track.to_string(), "漢", Sty { fg: col_of(tc), ..Sty::default() }, "track")?;
                is_written(&bar.thumb.to_string(), "漢", Sty { fg: col_of(hc), ..Sty::default() }, "thumb")?;
            }
            if i % n == 0 {
                for a in ATTRS { eq(&CompoundStyle::with_attr(a), None, None, Some(a), "with_attr")?; }
                let k = (i / n) as u8;
                if i / n < 256 {
                    ensure!(ansi(k) == Color::AnsiValue(k), "color", "ansi({k}) is {:?}", ansi(k));
                    ensure!(gray(k) == Color::AnsiValue(232 + k.min(23)), "color", "gray({k}) is {:?}", gray(k));
                    for j in [0, 7, 255] { ensure!(rgb(k, j, 255 - k) == Color::Rgb { r: k, g: j, b: 255 - k }, "color", "rgb({k}, {j}, {})", 255 - k); }
                }
            }
            l.trace(h64(&format!("{f:?}{b:?}")));
            Ok(())
        },
    });
}
