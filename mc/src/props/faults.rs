//! Writers which fail, at every point, or write only a part (C31)
use super::misc::TEMPLATES;
use crate::docs::*;
use crate::engine::*;
use crate::ensure;
use minimad::Composite;
use serde_json::json;
use std::fmt::Write as _;
use std::io::{self, ErrorKind, Write};
use termimad::crossterm::style::Color;
use termimad::crossterm::terminal::ClearType;
use termimad::minimad::Alignment;
use termimad::*;

pub fn run(ctx: &Ctx) {
    documents(ctx);
    primitives(ctx);
    crate::props::worker::full_stdout_family(ctx);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// at most that many bytes are written at once, every call being first interrupted
    Short(usize),
    /// after so many bytes, every write is an error
    Broken(usize),
    /// after so many bytes, one write is an error but what follows would be accepted
    Once(usize),
    /// after so many bytes, nothing more is taken
    Full(usize),
}
struct Faulty { out: Vec<u8>, fault: Fault, interrupted: bool, failures: usize }
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = match self.fault {
            Fault::Short(n) => {
                self.interrupted = !self.interrupted;
                if self.interrupted { return Err(ErrorKind::Interrupted.into()); }
                n
            }
            Fault::Broken(at) | Fault::Once(at) | Fault::Full(at) => {
                if self.out.len() >= at && !(self.failures > 0 && matches!(self.fault, Fault::Once(_))) {
                    self.failures += 1;
                    return if matches!(self.fault, Fault::Full(_)) { Ok(0) } else { Err(ErrorKind::StorageFull.into()) };
                }
                if self.out.len() >= at { b.len() } else { at - self.out.len() }
            }
        };
        let n = n.min(b.len());
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// the same for formatters
struct Refusing { out: String, left: usize, once: bool, failures: usize }
impl std::fmt::Write for Refusing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failures > 0 && self.once { self.out.push_str(s); return Ok(()); }
        if s.len() > self.left { self.failures += 1; return Err(std::fmt::Error); }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}

type Case<'a> = (String, Box<dyn Fn(&mut Faulty) -> Result<(), Error> + 'a>);

/// every fault at every point
fn check_case((what, f): &Case, l: &mut Local) -> Res {
    let run = |fault: Fault| -> Result<(Result<(), Error>, Faulty), Viol> {
        let mut w = Faulty { out: Vec::new(), fault, interrupted: false, failures: 0 };
        let r = guard(|| f(&mut w)).map_err(|v| Viol { msg: format!("{what} with {fault:?}: {}", v.msg), ..v })?;
        Ok((r, w))
    };
    let (r, normal) = run(Fault::Broken(usize::MAX))?;
    ensure!(r.is_ok(), "failure", "{what} fails with a good writer: {r:?}");
    let normal = normal.out;
    for n in [1, 2, 7] {
        let (r, w) = run(Fault::Short(n))?;
        ensure!(r.is_ok() && w.out == normal, "short", "{what}, {n} bytes at a time: {r:?}, {:?} is written instead of {:?}", String::from_utf8_lossy(&w.out), String::from_utf8_lossy(&normal));
    }
    l.trace(h64(&normal));
    for at in 0..=normal.len() {
        for fault in [Fault::Broken(at), Fault::Once(at), Fault::Full(at)] {
            let (r, w) = run(fault)?;
            if at == normal.len() {
                ensure!(r.is_ok() && w.out == normal && w.failures == 0, "end", "{what} with {fault:?}: {r:?} while everything can be written");
                continue;
            }
            l.trace(h64(&(&normal[..at], 1)));
            l.nontrivial();
            ensure!(w.out == normal[..at], "prefix", "{what} with {fault:?}: {:?} is written instead of the start of {:?}", String::from_utf8_lossy(&w.out), String::from_utf8_lossy(&normal));
            let kind = match &r { Ok(()) => None, Err(Error::IO(e)) => Some(e.kind()), Err(e) => return viol("error", format!("{what} with {fault:?}: error {e}")) };
            let want = if matches!(fault, Fault::Full(_)) { ErrorKind::WriteZero } else { ErrorKind::StorageFull };
            ensure!(kind == Some(want), "not-reported", "{what} with {fault:?}: the result is {r:?}");
            ensure!(w.failures == 1, "insists", "{what} with {fault:?}: {} writes are tried after the failure", w.failures - 1);
        }
    }
    Ok(())
}
/// every point at which a formatter may refuse to go on
fn check_display(what: &str, d: &dyn std::fmt::Display, l: &mut Local) -> Res {
    let mut all = Refusing { out: String::new(), left: usize::MAX, once: false, failures: 0 };
    let r = guard(|| write!(all, "{d}"))?;
    ensure!(r.is_ok(), "failure", "{what} can't be displayed");
    let all = all.out;
    for left in 0..all.len() { for once in [false, true] {
        let mut w = Refusing { out: String::new(), left, once, failures: 0 };
        let r = guard(|| write!(w, "{d}"))?;
        ensure!(r.is_err(), "not-reported", "{what}: formatting isn't an error while the formatter fails after {left} bytes among {}", all.len());
        ensure!(all.starts_with(&w.out) && w.failures == 1 && w.out.len() <= left, "prefix", "{what}: {:?} is written, with {} failures, by a formatter failing after {left} bytes", w.out, w.failures);
        l.trace(h64(&(&w.out, 2)));
        l.nontrivial();
    } }
    Ok(())
}

const LINES: &[&str] = &["a **b** `c` d*e*", "* item ~~of~~ a list", "  * sub", "# head", "|a|*b*|\n|:-|-:|\n|c|dd|", "> quote", "---", "    code\n    longer", "漢字é"];

fn documents(ctx: &Ctx) {
    let mut sk = skins();
    sk.truncate(ctx.by(3, 6));
    let seqs = Seqs { a: LINES.len() as u64, min: 1, max: ctx.by(2, 3) };
    let n = seqs.len() * sk.len() as u64;
    let get = |i: u64| (&sk[(i % sk.len() as u64) as usize], seqs.get(i / sk.len() as u64).into_iter().map(|k| LINES[k]).collect::<Vec<_>>().join("\n"));
    ctx.family(&Fam {
        name: "failing-writers".into(),
        bounds: format!("all texts of <= {} parts among {LINES:?}, {} skins, by all functions writing texts and views; writers failing for good or once, or taking nothing more, after each byte, and short and interrupted writes; formatters failing after each byte", seqs.max, sk.len()),
        n,
        d: |i| json!({"markdown": get(i).1, "skin": get(i).0.0}),
        c: |i, l: &mut Local| {
            let ((_, skin), md) = get(i);
            let area = Area::new(2, 1, 9, 5);
            let text = skin.area_text(&md, &area);
            let mut scrolled = TextView::from(&area, &text);
            scrolled.scroll = 1;
            let mut bare = TextView::from(&area, &text);
            bare.show_scrollbar = false;
            let view = MadView::from(md.clone(), area.clone(), skin.clone());
            let one = md.lines().next().unwrap();
            let composite = Composite::from_inline(one);
            let mut input = InputField::new(Area::new(3, 2, 7, 3));
            input.new_line_on(InputField::ENTER);
            input.set_str(&md);
            let mut cases: Vec<Case> = vec![
                ("TextView".into(), Box::new(|w| scrolled.write_on(w).map(|_| ()))),
                ("TextView without scrollbar".into(), Box::new(|w| bare.write_on(w).map(|_| ()))),
                ("MadView".into(), Box::new(|w| view.write_on(w))),
                ("write_in_area_on".into(), Box::new(|w| skin.write_in_area_on(w, &md, &area))),
                ("write_inline_on".into(), Box::new(|w| skin.write_inline_on(w, one))),
                ("write_text_on".into(), Box::new(|w| skin.write_text_on(w, &md))),
                ("write_composite".into(), Box::new(|w| skin.write_composite(w, composite.clone()))),
                ("InputField".into(), Box::new(|w| input.display_on(w).map(|_| ()))),
            ];
            for align in ALIGNS { for width in [5, 30] {
                let composite = &composite;
                cases.push((format!("write_composite_fill({width}, {align:?})"), Box::new(move |w| skin.write_composite_fill(w, composite.clone(), width, align))));
            } }
            for c in &cases { check_case(c, l)?; }
            for w in [None, Some(8), Some(40)] {
                let t = skin.text(&md, w);
                check_display(&format!("text for {w:?}"), &t, l)?;
                for line in &t.lines { check_display("line", &DisplayableLine::new(skin, line, w), l)?; }
            }
            check_display("inline", &skin.inline(one), l)
        },
    });
}

fn primitives(ctx: &Ctx) {
    let styles: &'static [CompoundStyle] = Box::leak(Box::new([CompoundStyle::default(), CompoundStyle::with_fg(Color::Red), CompoundStyle::with_bg(Color::AnsiValue(7)), full_skin().paragraph.compound_style.clone(), full_skin().bold.clone(), full_skin().inline_code.clone()]));
    let skin: &'static MadSkin = Box::leak(Box::new(full_skin()));
    let texts: &[&str] = if ctx.quick() { &["", "a", "é漢 b", "a\tb"] } else { &["", "a", "é漢 b", "a\tb", "a longer text to be written", "e\u{301}x"] };
    let (ns, nt) = (styles.len() as u64, texts.len() as u64);
    let counts: &[usize] = ctx.by(&[0, 1, 3, 9], &[0, 1, 2, 3, 9, 40]);
    ctx.family(&Fam {
        name: "failing-primitives".into(),
        bounds: format!("everything which can be written with {ns} styles, texts {texts:?}, counts and widths {counts:?}: styles, styled chars, croped writers, fillings, spacings, rects, lists, macros; same writers"),
        n: ns * nt * counts.len() as u64,
        d: |i| json!({"style": format!("{:?}", styles[(i % ns) as usize]), "text": texts[(i / ns % nt) as usize], "count": counts[(i / ns / nt) as usize]}),
        c: |i, l: &mut Local| {
            let (cs, text, n) = (&styles[(i % ns) as usize], texts[(i / ns % nt) as usize], counts[(i / ns / nt) as usize]);
            let sc = cs.style_char('漢');
            let fill = Filling::from_char('x');
            let mut cases: Vec<Case> = vec![
                ("CompoundStyle::queue".into(), Box::new(|w| cs.queue(w, text))),
                ("CompoundStyle::queue_str".into(), Box::new(|w| cs.queue_str(w, text))),
                ("CompoundStyle::queue_fg".into(), Box::new(|w| cs.queue_fg(w))),
                ("CompoundStyle::queue_bg".into(), Box::new(|w| cs.queue_bg(w))),
                ("CompoundStyle::clear".into(), Box::new(|w| cs.clear(w, ClearType::UntilNewLine))),
                ("StyledChar::queue".into(), Box::new(|w| sc.queue(w))),
                ("StyledChar::queue_repeat".into(), Box::new(|w| sc.queue_repeat(w, n))),
                ("Filling unstyled".into(), Box::new(|w| fill.queue_unstyled(w, n * 30))),
                ("Filling styled".into(), Box::new(|w| fill.queue_styled(w, cs, n * 30))),
                ("fill_bg".into(), Box::new(|w| fill_bg(w, n, Color::Blue))),
                ("style tokens".into(), Box::new(|w| Ok(write_style_tokens(w, &parse_style_tokens("red #010203 bold center ansi(9) 12 none x").unwrap())?))),
            ];
            for align in ALIGNS {
                let sp = Spacing { width: n, align };
                cases.push((format!("Spacing {align:?}"), Box::new(move |w| sp.write_str(w, text, cs))));
                cases.push((format!("counted Spacing {align:?}"), Box::new(move |w| sp.write_counted_str(w, text, unicode_width::UnicodeWidthStr::width(text), cs))));
            }
            for limit in [0, 2, 5, 20] {
                cases.push((format!("CropWriter({limit})"), Box::new(move |w| {
                    let mut cw = CropWriter::new(w, limit);
                    cw.queue_str(cs, text)?;
                    cw.queue_char(cs, '漢')?;
                    cw.queue_unstyled_str(text)?;
                    cw.queue_unstyled_char('y')?;
                    cw.queue_g_string(cs, text.to_string())?;
                    cw.queue_unstyled_g_string(text.to_string())?;
                    cw.queue_fg(cs)?;
                    cw.queue_bg(cs)?;
                    cw.repeat(cs, &SPACE_FILLING, n)?;
                    cw.repeat_unstyled(&SPACE_FILLING, n)?;
                    cw.fill_unstyled(&SPACE_FILLING)?;
                    Ok(())
                })));
                cases.push((format!("filled CropWriter({limit})"), Box::new(move |w| {
                    let mut cw = CropWriter::new(w, limit);
                    cw.queue_unstyled_str(text)?;
                    cw.fill(cs, &SPACE_FILLING)?;
                    cw.fill_with_space(cs)
                })));
            }
            for f in [false, true] { for h in [1u16, 3] {
                let mut r = Rect::new(Area::new(1, 1, n as u16, h), cs.clone());
                r.set_border_style(BORDER_STYLE_MIDDLE_ROUND_LINE);
                r.set_fill(f);
                cases.push((format!("Rect of height {h} (fill {f})"), Box::new(move |w| r.draw(w))));
            } }
            let rows: Vec<String> = (0..n).map(|k| format!("{text}{k}")).collect();
            for sel in [false, true] { for h in [4u16, 30] {
                let columns = vec![
                    ListViewColumn::new("name", 4, 9, Box::new(move |s: &String| ListViewCell::new(s.clone(), cs))),
                    ListViewColumn::new("len", 2, 5, Box::new(move |s: &String| ListViewCell::new(s.len().to_string(), cs))).with_align(Alignment::Right),
                ];
                let mut lv = ListView::new(Area::new(1, 2, 12, h), columns, skin);
                for r in &rows { lv.add_row(r.clone()); }
                lv.update_dimensions();
                if sel { lv.select_first_line(); }
                cases.push((format!("ListView of height {h} (selection {sel})"), Box::new(move |w| lv.write_on(w))));
            } }
            for c in &cases { check_case(c, l)?; }
            for (md, ..) in TEMPLATES { check_case(&("write_composite".into(), Box::new(|w| skin.write_composite(w, Composite::from_inline(md)))), l)?; }
            check_case(&("mad_write_inline!".into(), Box::new(|w| mad_write_inline!(w, skin, "**$0** and `$1`", text, n))), l)?;
            check_display("styled char", &sc, l)?;
            check_display("repeated char", &sc.repeated(n), l)?;
            check_display("progress bar", &ProgressBar::new(0.4, n), l)?;
            let ls = LineStyle::from(cs.clone());
            struct F<G: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result>(G);
            impl<G: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Display for F<G> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (self.0)(f) } }
            check_display("repeat_string", &F(|f| cs.repeat_string(f, text, n)), l)?;
            check_display("repeat_char", &F(|f| cs.repeat_char(f, 'é', n)), l)?;
            check_display("repeat_space", &F(|f| ls.repeat_space(f, n)), l)?;
            check_display("line style, repeat_string", &F(|f| ls.repeat_string(f, text, n)), l)?;
            check_display("line style, repeat_char", &F(|f| ls.repeat_char(f, 'é', n)), l)
        },
    });
}
