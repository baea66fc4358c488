//! Small drawings (C24), totality (C25), rendering widths (C27), entry points and
//! templates (C28), the table fitter (C29)
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use minimad::{Composite, Compound};
use serde_json::json;
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

pub fn run(ctx: &Ctx) {
    match ctx.property.as_str() {
        "C24" => { rects(ctx); bars(ctx); areas(ctx); }
        "C25" => { any_chars(ctx); any_lines(ctx); any_area(ctx); extremes(ctx); }
        "C27" => { widths(ctx); long_widths(ctx); }
        "C28" => { macros(ctx); entry_points(ctx); raw_texts(ctx); special_chars(ctx); crate::props::worker::stdout_family(ctx); }
        _ => tbl_fit(ctx),
    }
}

// ---------------------------------------------------------------- C24

fn rects(ctx: &Ctx) {
    let styles: [(&str, &RectBorderStyle, [char; 8]); 4] = [ // corners from top left, clockwise, then top, right, bottom, left
        ("half", BORDER_STYLE_HALF_WIDTH_OUTSIDE, ['▛', '▜', '▟', '▙', '▀', '▐', '▄', '▌']),
        ("square", BORDER_STYLE_MIDDLE_SQUARE_LINE, ['┌', '┐', '┘', '└', '─', '│', '─', '│']),
        ("round", BORDER_STYLE_MIDDLE_ROUND_LINE, ['╭', '╮', '╯', '╰', '─', '│', '─', '│']),
        ("bland", BORDER_STYLE_BLAND, [' '; 8]),
    ];
    let colors = [CompoundStyle::default(), CompoundStyle::with_fg(Color::Red), CompoundStyle::new(Some(gray(5)), Some(Color::Rgb { r: 1, g: 2, b: 3 }), Attribute::Bold.into())];
    let size = ctx.by(14u64, 60);
    let big: &[(usize, usize)] = &[(3, 400), (400, 3), (300, 310), (2, 1000), (1000, 2), (1, 800), (800, 1), (260, 257), (3, 3000), (3000, 3)];
    let dims = |i: u64| if i < size * size { ((i % size) as usize, (i / size) as usize) } else { big[(i - size * size) as usize] };
    ctx.family(&Fam {
        name: "rects".into(),
        bounds: format!("widths and heights < {size} and {big:?}, 4 borders, filled or not, 3 styles, 3 positions"),
        n: size * size + big.len() as u64,
        d: |i| json!({"width": dims(i).0, "height": dims(i).1}),
        c: |i, l: &mut Local| {
            let (w, h) = dims(i);
            for (left, top) in [(0u16, 0u16), (3, 1), (1, 4)] { for (sn, bs, ch) in &styles { for fill in [None, Some(false), Some(true)] { for cs in &colors {
                let area = Area::new(left, top, w as u16, h as u16);
                let mut r = Rect::new(area.clone(), cs.clone());
                if *sn != "bland" { r.set_border_style(bs); }
                if let Some(f) = fill { r.set_fill(f); }
                let mut v = Vec::new();
                guard(|| r.draw(&mut v).unwrap())?;
                let out = String::from_utf8(v).unwrap();
                l.trace(h64(&out));
                let mut scr = Screen::new(left as usize + w + 4, top as usize + h + 4);
                scr.feed(&out);
                let what = format!("{w}x{h} {sn} rect at {left},{top} (fill {fill:?}): {out:?}");
                ensure!(scr.err.is_none(), "screen", "{what}: {:?}", scr.err);
                let o = scr.outside(left as usize, top as usize, w, h);
                ensure!(o.is_empty(), "outside", "{what}: cells written out of the area: {o:?}");
                ensure!(scr.st.plain(), "leak", "{what}: style leak");
                if w < 2 || h < 2 { continue; }
                l.nontrivial();
                for y in 0..h { for x in 0..w {
                    let (t, b, lf, rt) = (y == 0, y == h - 1, x == 0, x == w - 1);
                    let want = match (t, b, lf, rt) {
                        (true, _, true, _) => Some(ch[0]), (true, _, _, true) => Some(ch[1]), (_, true, _, true) => Some(ch[2]), (_, true, true, _) => Some(ch[3]),
                        (true, ..) => Some(ch[4]), (_, _, _, true) => Some(ch[5]), (_, true, ..) => Some(ch[6]), (_, _, true, _) => Some(ch[7]),
                        _ => (fill == Some(true)).then_some(' '),
                    };
                    let c = scr.at(left as usize + x, top as usize + y);
                    match want {
                        Some(k) => ensure!(c.map_or(false, |c| c.s == k.to_string() && c.st == sty_of(cs)), "rect", "{what}: cell {x},{y} is {c:?} instead of {k:?} in {:?}", sty_of(cs)),
                        None => ensure!(c.is_none(), "rect", "{what}: cell {x},{y} is written in a rect which isn't filled"),
                    }
                } }
            } } } }
            Ok(())
        },
    });
}
fn bars(ctx: &Ctx) {
    let (maxlen, maxden) = ctx.by((140u64, 400u64), (400, 1200));
    ctx.family(&Fam {
        name: "progress-bars".into(),
        bounds: format!("all fractions k/n with n <= {maxden}, all lengths <= {maxlen}, printed alone and padded"),
        n: (maxlen + 1) * maxden,
        d: |i| json!({"length": i % (maxlen + 1), "denominator": i / (maxlen + 1) + 1}),
        c: |i, l: &mut Local| {
            let (len, den) = ((i % (maxlen + 1)) as usize, i / (maxlen + 1) + 1);
            let mut previous = 0;
            for k in 0..=den {
                let part = (k as f64 / den as f64) as f32;
                let s = guard(|| ProgressBar::new(part, len).to_string())?;
                l.trace(h64(&(&s, len)));
                let mut eighths = 0usize;
                let n = s.chars().count();
                for (j, c) in s.chars().enumerate() {
                    let e = match "▏▎▍▌▋▊▉█".chars().position(|x| x == c) { Some(p) => p + 1, None => return viol("bar", format!("{k}/{den} of {len}: unexpected {c:?} in {s:?}")) };
                    ensure!(e == 8 || j + 1 == n, "bar", "{k}/{den} of {len}: partial block before the end in {s:?}");
                    eighths += e;
                }
                ensure!(n <= len, "bar", "{k}/{den} of {len}: {n} chars in {s:?}");
                let exact = len as f64 * 8.0 * k as f64 / den as f64;
                ensure!((eighths as f64 - exact).abs() <= 0.5 + 1e-3, "bar", "{k}/{den} of {len}: {eighths} eighths instead of {exact} ({s:?})");
                ensure!(eighths >= previous, "bar", "{k}/{den} of {len}: shorter than for the previous part");
                previous = eighths;
                if den <= 24 {
                    let b = ProgressBar::new(part, len);
                    let pad = " ".repeat((len + 3).saturating_sub(n));
                    ensure!(format!("{b:<w$}", w = len + 3) == format!("{s}{pad}") && format!("{b:w$}", w = len) == format!("{s}{}", " ".repeat(len - n)) && format!("{b:>w$}", w = len + 3) == format!("{pad}{s}"), "bar-pad", "{k}/{den} of {len} isn't padded");
                }
            }
            Ok(())
        },
    });
}
fn areas(ctx: &Ctx) {
    let size = ctx.by(9u64, 14);
    ctx.family(&Fam {
        name: "areas".into(),
        bounds: format!("lefts, tops, widths and heights < {size}, all points and all maximal widths around"),
        n: size * size * size * size,
        d: |i| json!({"area": i, "base": size}),
        c: |i, l: &mut Local| {
            let mut m = Mixed(i);
            let mut v = [0u16; 4];
            for x in &mut v { *x = m.take64(size) as u16; }
            let a = Area::new(v[0], v[1], v[2], v[3]);
            ensure!(a.right() == v[0] + v[2] && a.bottom() == v[1] + v[3], "area", "{a:?}: right {}, bottom {}", a.right(), a.bottom());
            for x in 0..2 * size as u16 + 1 { for y in 0..2 * size as u16 + 1 {
                ensure!(a.contains(x, y) == ((v[0]..v[0] + v[2]).contains(&x) && (v[1]..v[1] + v[3]).contains(&y)), "area", "{a:?}.contains({x}, {y}) is {}", a.contains(x, y));
            } }
            for mw in 0..=size as u16 + 2 {
                let mut b = a.clone();
                b.pad_for_max_width(mw);
                let free = v[2] - v[2].min(mw);
                ensure!(b == Area::new(v[0] + free / 2, v[1], v[2].min(mw), v[3]), "area-pad", "{a:?}.pad_for_max_width({mw}) gives {b:?}");
            }
            for dx in 0..=v[2] / 2 { for dy in 0..=v[3] / 2 {
                let mut b = a.clone();
                guard(|| b.pad(dx, dy))?;
                ensure!(b == Area::new(v[0] + dx, v[1] + dy, v[2] - 2 * dx, v[3] - 2 * dy), "area-pad", "{a:?}.pad({dx}, {dy}) gives {b:?}");
            } }
            l.trace(h64(&v));
            Ok(())
        },
    });
}

// ---------------------------------------------------------------- C25

/// everything which can be rendered of a text
fn render_all(md: &str, skin: &MadSkin, widths: &[Option<usize>], l: &mut Local) -> Res {
    for w in widths {
        let out = guard(|| FmtText::from(skin, md, *w).to_string())?;
        l.trace(h64(&out));
        guard(|| FmtText::raw_str(skin, md, *w).to_string())?;
        let t = guard(|| FmtText::from(skin, md, *w))?;
        guard(|| {
            t.content_width();
            for line in &t.lines { DisplayableLine::new(skin, line, *w).to_string(); DisplayableLine::new(skin, line, Some(2)).to_string(); }
        })?;
        if let (Ok(rows), false) = (rows(&out), md.contains('\u{1b}')) {
            for r in &rows { ensure!(r.g.iter().all(|g| g.ch != '\u{1b}'), "stream", "escape char in {out:?}"); }
        } else if !md.contains('\u{1b}') { return viol("stream", format!("{md:?} for {w:?}: {out:?}: {:?}", rows(&out).err())); }
    }
    Ok(())
}
fn render_inline(md: &str, skin: &MadSkin, l: &mut Local) -> Res {
    let s = guard(|| skin.inline(md).to_string())?;
    l.trace(h64(&s));
    for w in [0, 1, 2, 3, 5] { for al in ALIGNS {
        guard(|| { let mut v = Vec::new(); skin.write_composite_fill(&mut v, Composite::from_inline(md), w, al).unwrap(); })?;
    } }
    Ok(())
}
const ANY: &[&str] = &["a", " ", "*", "`", "|", "-", "\n", "#", "漢", ">", ":", "~", "\u{301}", "\t", "0", "\r", "é", "👩\u{200d}🔬", "\\", "\u{0}", "$", "…", "❤\u{fe0f}", "\u{200b}", "\u{600}", "👍🏽", "ل\u{627}"];
fn any_chars(ctx: &Ctx) {
    let sk: Vec<(String, MadSkin)> = skins().into_iter().take(2).collect();
    let mut sk = sk;
    let mut big = MadSkin::default();
    set_geometry(&mut big, Alignment::Right, 7, 70000, ListItemsIndentationMode::Block);
    sk.push(("big margins".into(), big));
    let a = ANY.len() as u64;
    let seqs = Seqs { a, min: 0, max: 4 };
    let widths: Vec<Option<usize>> = [0usize, 1, 2, 3, 4, 5, 9].into_iter().map(Some).chain([None, Some(usize::MAX)]).collect();
    let widths: Vec<Option<usize>> = widths.into_iter().filter(|w| *w != Some(usize::MAX)).collect();
    let text = |i: u64| seqs.get(i).into_iter().map(|k| ANY[k]).collect::<String>();
    ctx.family(&Fam {
        name: "any-chars".into(),
        bounds: format!("all texts of <= {} elements among {:?}, widths {widths:?}, {} skins; also as inlines shortened to 0..=5 columns", seqs.max, &ANY[..a as usize], sk.len()),
        n: seqs.len(),
        d: |i| json!({"text": text(i)}),
        c: |i, l: &mut Local| {
            let md = text(i);
            for (_, s) in &sk { render_all(&md, s, &widths, l)?; }
            render_inline(&md, &sk[0].1, l)
        },
    });
}
const LINES: &[&str] = &["", "* a b", "    * c d", "|a|b b|", "|-", "|:-:|-:|:-|", "# h", "```", "    code code", "> q q q", "---", "aa **bb** `c c` d", "|", "||||", "漢字漢字", "   ", "|漢|", "######### x", "* ", ">", "|-|a|", "`", "****", "      * deep", "| a | b | c | d | e | f |"];
fn any_lines(ctx: &Ctx) {
    let sk: Vec<(String, MadSkin)> = skins().into_iter().take(ctx.by(2, 6)).collect();
    let seqs = Seqs { a: LINES.len() as u64, min: 1, max: 3 };
    let widths: Vec<Option<usize>> = (0..=ctx.by(9, 20)).map(Some).chain([None]).collect();
    let text = |i: u64| seqs.get(i).into_iter().map(|k| LINES[k]).collect::<Vec<_>>().join("\n");
    ctx.family(&Fam {
        name: "any-lines".into(),
        bounds: format!("all texts of <= {} lines among {LINES:?}, widths {widths:?}, {} skins", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"text": text(i)}),
        c: |i, l: &mut Local| {
            let md = text(i);
            for (_, s) in &sk { render_all(&md, s, &widths, l)?; }
            Ok(())
        },
    });
}
fn any_area(ctx: &Ctx) {
    let docs = ["", "a", "\t漢\u{301}👩\u{200d}🔬a\r\n\u{0}❤\u{fe0f}`x` ل\u{627}\n\t\t\n| 👍🏽 |\u{200b}|…\n|-\n", "* aa bb cc\n\n|a|b|\n|-\n> q\n    code\n---", "漢字漢字漢字", "a\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk"];
    let size = ctx.by(8u64, 14);
    let sk = skins();
    ctx.family(&Fam {
        name: "any-area".into(),
        bounds: format!("areas of all widths and heights < {size}, {} texts, {} skins: write_in_area_on, TextView and MadView (scrolls, keys, resizes), ListView, InputField, Rect", docs.len(), sk.len()),
        n: size * size * docs.len() as u64,
        d: |i| json!({"width": i % size, "height": i / size % size, "text": docs[(i / size / size) as usize]}),
        c: |i, l: &mut Local| {
            let (w, h, md) = ((i % size) as u16, (i / size % size) as u16, docs[(i / size / size) as usize]);
            for (_, skin) in &sk { for (left, top) in [(0u16, 0u16), (5, 3)] {
                let area = Area::new(left, top, w, h);
                let what = format!("{area:?} {md:?}");
                let in_area = |v: &[u8]| -> Res {
                    let mut scr = Screen::new((left + w) as usize + 12, (top + h) as usize + 6);
                    scr.feed(&String::from_utf8_lossy(v));
                    // the width of tabs, control chars and joined emojis depends on the terminal
                    if w >= 6 && h > 0 && !md.contains('\t') {
                        let o = scr.outside(left as usize, top as usize, w as usize, h as usize);
                        ensure!(o.is_empty(), "outside", "{what}: {o:?}");
                    }
                    Ok(())
                };
                let mut v = Vec::new();
                guard(|| skin.write_in_area_on(&mut v, md, &area).unwrap())?;
                in_area(&v)?;
                l.trace(h64(&v));
                // text views
                let text = guard(|| skin.area_text(md, &area))?;
                for bar in [true, false] {
                    let mut view = TextView::from(&area, &text);
                    view.show_scrollbar = bar;
                    for op in 0..14 {
                        let mut v = Vec::new();
                        guard(|| match op {
                            0 => { view.write_on(&mut v).unwrap(); }
                            1 => view.try_scroll_lines(1), 2 => view.try_scroll_lines(i32::MAX), 3 => view.try_scroll_lines(i32::MIN),
                            4 => view.try_scroll_pages(1), 5 => view.try_scroll_pages(i32::MIN), 6 => view.try_scroll_pages(0.3), 7 => { view.page_down(); }
                            8 => { view.line_down(); } 9 => { view.page_up(); } 10 => { view.line_up(); } 11 => { view.set_scroll(usize::MAX); } 12 => { view.set_scroll(3); }
                            _ => { view.content_height(); view.scrollbar(); }
                        })?;
                        guard(|| view.write_on(&mut v).unwrap())?;
                        in_area(&v)?;
                    }
                }
                let mut view = guard(|| MadView::from(md.to_string(), area.clone(), skin.clone()))?;
                for (rw, rh) in [(w, h), (0, 0), (w + 1, h), (1, 1), (2, h), (w, 0), (w, h)] {
                    guard(|| { view.resize(&Area::new(left, top, rw, rh)); view.try_scroll_lines(2); view.try_scroll_pages(-1); let mut v = Vec::new(); view.write_on(&mut v).unwrap(); })?;
                }
                // lists
                let st: &'static CompoundStyle = Box::leak(Box::default());
                let col = |t: &'static str, min, max| ListViewColumn::new(t, min, max, Box::new(move |r: &usize| ListViewCell::new(format!("cell {r}"), st)));
                guard(|| {
                    let mut lv = ListView::new(area.clone(), vec![col("a", 1, 4), col("bb", 2, 20), col("bb", 1, 1)], skin);
                    for n in 0..12 {
                        match n { 3 => lv.update_dimensions(), 4 => lv.try_select_next(false), 5 => lv.try_scroll_lines(2), 6 => lv.select_last_line(), 7 => lv.try_scroll_pages(-1), 8 => lv.try_select_next(true), 9 => lv.scroll_to_bottom(), 10 => lv.select_first_line(), _ => {} }
                        let mut v = Vec::new();
                        lv.write_on(&mut v).unwrap();
                        lv.scrollbar();
                        lv.add_row(n);
                    }
                })?;
                // inputs
                guard(|| {
                    for mono in [true, false] {
                        let mut inp = InputField::new(area.clone());
                        if mono { inp.set_mono_line(); }
                        inp.set_str(md);
                        for f in [true, false] {
                            inp.set_focus(f);
                            let mut v = Vec::new();
                            inp.display_on(&mut v).unwrap();
                            inp.move_to_end(); inp.put_char('漢'); inp.page_up(); inp.page_down(); inp.scroll_up(); inp.scroll_down(); inp.move_word_left(); inp.display_on(&mut v).unwrap();
                            inp.apply_click_event(left, top); inp.apply_click_event(left + 3, top + 2); inp.cut_selection(); inp.display_on(&mut v).unwrap();
                        }
                    }
                })?;
            } }
            Ok(())
        },
    });
}
fn extremes(ctx: &Ctx) {
    let rep = |s: &str, n: usize| s.repeat(n);
    let big = ctx.by(3000usize, 100_000);
    let docs: Vec<(String, String)> = vec![
        ("a long word".into(), rep("a", big)),
        ("many words".into(), rep("ab ", big)),
        ("many blanks".into(), rep(" ", big)),
        ("many spans".into(), rep("**a** ", big)),
        ("many columns".into(), format!("{}\n{}\n{}", rep("|a", 300), rep("|-", 300), rep("|b c", 300))),
        ("a wide table".into(), format!("|{}|{}|\n|-|-|\n|a|b|", rep("x ", big), rep("y", big))),
        ("many rules".into(), rep("|-\n", 500)),
        ("many rows".into(), rep("|a|b b b b b\n", 500)),
        ("a deep list".into(), format!("{}* x y z", rep(" ", 300))),
        ("long list items".into(), rep("* a b c\n", 500)),
        ("a long code block".into(), format!("```\n{}\n```", rep("    code\n\tb\n", 300))),
        ("unclosed spans".into(), rep("*a `b ", 500)),
        ("wide chars".into(), rep("漢", big)),
        ("combining chars".into(), rep("\u{301}", big)),
        ("one line of everything".into(), ANY.concat().replace('\n', "").repeat(20)),
    ];
    let sk = skins();
    let widths: Vec<Option<usize>> = [0usize, 1, 2, 3, 4, 5, 7, 80, 65535, 70000, 1_000_000].into_iter().map(Some).chain([None]).collect();
    ctx.family(&Fam {
        name: "extremes".into(),
        bounds: format!("{} big documents ({big} repetitions), widths {widths:?}, {} skins", docs.len(), sk.len()),
        n: (docs.len() * widths.len()) as u64,
        d: |i| json!({"document": docs[i as usize % docs.len()].0, "width": widths[i as usize / docs.len()]}),
        c: |i, l: &mut Local| {
            let (d, w) = (&docs[i as usize % docs.len()].1, widths[i as usize / docs.len()]);
            for (_, s) in &sk {
                if w.map_or(false, |w| w > 1000) && d.lines().count() > 20 { continue; }
                let out = guard(|| FmtText::from(s, d, w).to_string())?;
                l.trace(h64(&out));
                ensure!(rows(&out).is_ok(), "stream", "{:?}", rows(&out).err());
            }
            Ok(())
        },
    });
}

// ---------------------------------------------------------------- C27

const DOC: &[&str] = &["a", "aa bbb cccc dd", "# title", "## longer title", "* item", "  * deep item of list", "> quote", "    code", "    longer code", "|:-|-:|:-:|", "|a|bb|", "|-", "---", "", "漢字 仮名", "### **three**"];
fn widths(ctx: &Ctx) {
    let sk = skins();
    let seqs = Seqs { a: DOC.len() as u64, min: 1, max: ctx.by(4, 5) };
    let text = |i: u64| seqs.get(i).into_iter().map(|k| DOC[k]).collect::<Vec<_>>().join("\n");
    let fw: &[Option<usize>] = &[None, Some(6), Some(9), Some(14)];
    ctx.family(&Fam {
        name: "rendering-widths".into(),
        bounds: format!("all documents of <= {} lines among {DOC:?}, {} skins, formatted for {fw:?}, rendered at all widths from content_width to 9 more", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": text(i)}),
        c: |i, l: &mut Local| {
            let md = text(i);
            for (sn, skin) in &sk { for f in fw {
                let what = format!("skin {sn}, {md:?} formatted for {f:?}");
                let mut t = guard(|| skin.text(&md, *f))?;
                let n = t.lines.len();
                let cw = guard(|| t.content_width())?;
                t.width = None;
                let base = rows(&guard(|| t.to_string())?).or_else(|e| viol("stream", e))?;
                ensure!(base.len() == n, "rows", "{what}: {} rows for {n} lines", base.len());
                // the natural rows, without their margins
                let styles: Vec<Option<&LineStyle>> = t.lines.iter().map(|line| match line { FmtLine::Normal(fc) => Some(skin.line_style(fc.kind)), _ => None }).collect();
                let is_rule: Vec<bool> = t.lines.iter().map(|line| matches!(line, FmtLine::HorizontalRule)).collect();
                let lm = |k: usize| styles[k].map_or(0, |s| s.left_margin);
                let mut max = 0;
                for (k, r) in base.iter().enumerate() {
                    if is_rule[k] { continue; }
                    ensure!(r.g.len() >= lm(k) && r.g[..lm(k)].iter().all(|g| g.ch == ' '), "margin", "{what}: no margin at row {k}: {:?}", r.text());
                    max = max.max(r.width - lm(k));
                }
                ensure!(cw == max, "content-width", "{what}: content_width is {cw} while the widest row has {max} columns ({:?})", base.iter().map(|r| r.text()).collect::<Vec<_>>());
                for width in 0..cw.max(1) {
                    guard(|| t.set_rendering_width(width))?;
                    guard(|| t.to_string())?;
                    let now = guard(|| t.content_width())?;
                    ensure!(now == cw, "content-width", "{what}: content_width is {now} instead of {cw} once the rendering width is {width}");
                }
                for width in cw.max(1)..cw.max(1) + 10 {
                    guard(|| t.set_rendering_width(width))?;
                    let now = guard(|| t.content_width())?;
                    ensure!(now == cw, "content-width", "{what}: content_width is {now} instead of {cw} once the rendering width is {width}");
                    let r = rows(&guard(|| t.to_string())?).or_else(|e| viol("stream", e))?;
                    l.trace(h64(&(&md, sn, f, width)));
                    ensure!(r.len() == n, "rows", "{what}, rendered at {width}: {} rows instead of {n}", r.len());
                    for (k, row) in r.iter().enumerate() {
                        let what = format!("{what}, rendered at {width}, row {k} {:?}", row.text());
                        if is_rule[k] {
                            ensure!(row.width == width && row.g.iter().all(|g| g.ch == skin.horizontal_rule.nude_char()), "rule", "{what}: not a rule of {width} columns");
                            continue;
                        }
                        let natural = &base[k].g[lm(k)..];
                        let w = base[k].width - lm(k);
                        let (align, ml, mr) = match styles[k] { Some(s) => { let m = margins(s, Some(width)); (s.align, m.0, m.1) } None => (skin.table.align, 0, 0) };
                        let (ml, mr) = if w + ml + mr > width { (0, 0) } else { (ml, mr) };
                        let lead = ml + pads(align, w + ml + mr, width).0;
                        ensure!(row.width <= width, "too-wide", "{what}: {} columns", row.width);
                        ensure!(row.g.len() == lead + natural.len() && row.g[..lead].iter().all(|g| g.ch == ' '), "placement", "{what}: should start after {lead} columns, as {align:?}");
                        ensure!(row.g[lead..].iter().zip(natural).all(|(a, b)| a.ch == b.ch && a.st == b.st), "content", "{what}: instead of {:?}", base[k].text());
                        if lead > 0 { l.nontrivial(); }
                    }
                }
            } }
            Ok(())
        },
    });
}

/// long texts: the widest line may be anywhere
fn long_widths(ctx: &Ctx) {
    let n = ctx.by(400u64, 3000);
    let lens: Vec<u64> = vec![1, 2, n / 2, n, 5 * n];
    let skin = MadSkin::default();
    ctx.family(&Fam {
        name: "long-texts".into(),
        bounds: format!("texts of {lens:?} lines, one of them being wider, anywhere (or every 100 lines for the longest)"),
        n: n,
        d: |i| json!({"place of the widest line": i}),
        c: |i, l: &mut Local| {
            for &len in &lens {
                for at in [i, i * 100 % (len + 1), len.saturating_sub(1)] {
                    if at >= len || len > n && i % 20 != 0 { continue; }
                    let md: String = (0..len).map(|k| if k == at { "a **longer** line\n" } else { "short\n" }).collect();
                    let t = guard(|| skin.text(&md, None))?;
                    let cw = guard(|| t.content_width())?;
                    ensure!(cw == 13, "content-width", "the content width is {cw} instead of 13, which is the one of line {at} among {len}");
                    l.trace(h64(&(at, len)));
                    l.nontrivial();
                }
            }
            Ok(())
        },
    });
}

// ---------------------------------------------------------------- C28

type Tpl = (&'static str, fn(&mut Vec<u8>, &MadSkin, &[&str]), fn(&MadSkin, &[&str]));
macro_rules! tpl {
    ($($md:literal),* $(,)?) => { &[$(($md, {
        fn f(w: &mut Vec<u8>, skin: &MadSkin, a: &[&str]) {
            match a.len() {
                0 => mad_write_inline!(w, skin, $md).unwrap(),
                1 => mad_write_inline!(w, skin, $md, a[0]).unwrap(),
                2 => mad_write_inline!(w, skin, $md, a[0], a[1]).unwrap(),
                _ => mad_write_inline!(w, skin, $md, a[0], a[1], a[2],).unwrap(),
            }
        }
        f as fn(&mut Vec<u8>, &MadSkin, &[&str])
    }, {
        fn p(skin: &MadSkin, a: &[&str]) {
            match a.len() {
                0 => mad_print_inline!(skin, $md),
                1 => mad_print_inline!(skin, $md, a[0]),
                2 => mad_print_inline!(skin, $md, a[0], a[1],),
                _ => mad_print_inline!(skin, $md, a[0], a[1], a[2]),
            }
        }
        p as fn(&MadSkin, &[&str])
    })),*] };
}
pub const TEMPLATES: &[Tpl] = tpl!["", "plain *text*", "$0", "**$0**", "$0$1$2", "$2 $1 $0", "a $0 b", "**$0 formula:** *$1*", "`$0` ~~$1~~ ***$2***", "$0 and *$0* and **$0**", "$1$1", "$", "$$0", "$x $0", "$0$", "漢$0字$1", "$9 $3 $2", "* $0", "# $1", "~~a$0b~~`c$1d`", "`$`$0"];
pub const VALUES: &[&str] = &["", "x", "*a*", "**", "`c`", "$0", "$1 $2", "漢", " b ", "~~s~~", "# h", "|a|"];
/// what a template with these values must show: only the template is markdown
pub fn expected_inline(md: &str, values: &[&str], skin: &MadSkin) -> Vec<(char, Sty)> {
    let tpl = Composite::from_inline(md);
    let mut out = Vec::new();
    for c in &tpl.compounds {
        let st = compound_sty(skin, &skin.paragraph, c);
        let s: Vec<char> = c.src.chars().collect();
        let mut k = 0;
        while k < s.len() {
            // '$' followed by something: consumed together
            if s[k] == '$' && k + 1 < s.len() {
                if let Some(v) = s[k + 1].to_digit(10).filter(|_| s[k + 1].is_ascii_digit()) {
                    match values.get(v as usize) { Some(v) => out.extend(v.chars().map(|c| (c, st))), None => out.extend([('$', st), (s[k + 1], st)]) }
                } else { out.extend([('$', st), (s[k + 1], st)]); }
                k += 2;
            } else { out.push((s[k], st)); k += 1; }
        }
    }
    out
}
pub fn check_inline(out: &str, want: &[(char, Sty)], skin: &MadSkin, what: &str) -> Res {
    let r = rows(out).or_else(|e| viol("stream", e))?;
    let p = sty_of(&skin.paragraph.compound_style);
    let mut w: Vec<(char, Sty)> = vec![(' ', p); skin.paragraph.left_margin];
    w.extend_from_slice(want);
    let g: Vec<(char, Sty)> = r.first().map(|r| r.g.iter().map(|g| (g.ch, g.st)).collect()).unwrap_or_default();
    ensure!(r.len() <= 1 && g == w, "inline", "{what}: {out:?} instead of {w:?}");
    Ok(())
}
fn macros(ctx: &Ctx) {
    let sk = skins();
    let seqs = Seqs { a: VALUES.len() as u64, min: 0, max: 3 };
    let nt = TEMPLATES.len() as u64;
    ctx.family(&Fam {
        name: "inline-templates".into(),
        bounds: format!("mad_write_inline! with {nt} templates, all sequences of <= 3 values among {VALUES:?}, {} skins", sk.len()),
        n: nt * seqs.len(),
        d: |i| json!({"template": TEMPLATES[(i % nt) as usize].0, "values": seqs.get(i / nt).into_iter().map(|k| VALUES[k]).collect::<Vec<_>>()}),
        c: |i, l: &mut Local| {
            let (md, f, _) = &TEMPLATES[(i % nt) as usize];
            let vals: Vec<&str> = seqs.get(i / nt).into_iter().map(|k| VALUES[k]).collect();
            for (sn, skin) in &sk {
                let mut v = Vec::new();
                guard(|| f(&mut v, skin, &vals))?;
                let out = String::from_utf8_lossy(&v).into_owned();
                l.trace(h64(&out));
                check_inline(&out, &expected_inline(md, &vals, skin), skin, &format!("skin {sn}, template {md:?} with {vals:?}"))?;
            }
            Ok(())
        },
    });
}
fn entry_points(ctx: &Ctx) {
    let sk = skins();
    let toks: Vec<T> = INLINE.iter().copied().chain([T::Raw("\n"), T::Raw("* "), T::Raw("|"), T::Raw("# "), T::Raw("---")]).collect();
    let seqs = Seqs { a: toks.len() as u64, min: 0, max: ctx.by(4, 5) };
    let text = |i: u64| build(&seqs.get(i).into_iter().map(|k| toks[k]).collect::<Vec<_>>());
    ctx.family(&Fam {
        name: "entry-points".into(),
        bounds: format!("all texts of <= {} tokens among {toks:?}: inlines with {} skins, equivalence of the functions giving texts and inlines", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": text(i)}),
        c: |i, l: &mut Local| {
            let md = text(i);
            let bytes = |f: &dyn Fn(&mut Vec<u8>)| -> Result<String, Viol> { let mut v = Vec::new(); guard(|| f(&mut v))?; Ok(String::from_utf8_lossy(&v).into_owned()) };
            for (sn, skin) in &sk {
                let what = format!("skin {sn}, {md:?}");
                if !md.contains('\n') {
                    let s = guard(|| skin.inline(&md).to_string())?;
                    l.trace(h64(&s));
                    let want: Vec<(char, Sty)> = Composite::from_inline(&md).compounds.iter().flat_map(|c| { let st = compound_sty(skin, &skin.paragraph, c); c.src.chars().map(move |c| (c, st)).collect::<Vec<_>>() }).collect();
                    check_inline(&s, &want, skin, &what)?;
                    ensure!(bytes(&|v| skin.write_inline_on(v, &md).unwrap())? == s, "write_inline_on", "{what}: not as inline");
                    ensure!(bytes(&|v| skin.write_composite(v, Composite::from_inline(&md)).unwrap())? == s, "write_composite", "{what}: not as inline");
                }
                for w in [None, Some(8), Some(31)] {
                    let s = guard(|| skin.text(&md, w).to_string())?;
                    ensure!(s == guard(|| FmtText::from(skin, &md, w).to_string())? && s == guard(|| FmtText::from_text(skin, minimad::parse_text(&md, minimad::Options::default()), w).to_string())?, "texts", "{what}: from and text differ");
                    let area = Area::new(1, 2, w.unwrap_or(4) as u16, 3);
                    ensure!(guard(|| skin.area_text(&md, &area).to_string())? == guard(|| skin.text(&md, Some((area.width - 1) as usize)).to_string())?, "area_text", "{what}: area_text isn't for the width of the area less one");
                    // line by line
                    let t = guard(|| skin.text(&md, w))?;
                    let base = rows(&s).or_else(|e| viol("stream", e))?;
                    if let Some(w) = w {
                        let p = sty_of(&skin.paragraph.compound_style);
                        for (line, b) in t.lines.iter().zip(&base) {
                            // a table without any column has no sensible width
                            if matches!(line, FmtLine::TableRow(r) if r.cells.is_empty()) || matches!(line, FmtLine::TableRule(r) if r.widths.is_empty()) { continue; }
                            let out = guard(|| DisplayableLine::new(skin, line, Some(w)).to_string())?;
                            let r = rows(&out).or_else(|e| viol("stream", e))?.into_iter().next().unwrap_or_default();
                            let n = b.g.len();
                            ensure!(r.width == w.max(b.width) && r.g.len() >= n && r.g[..n] == b.g[..] && r.g[n..].iter().all(|g| g.ch == ' ' && g.st == p), "displayable_line", "{what}: {out:?} isn't {:?} completed up to {w} columns", b.text());
                        }
                    }
                }
            }
            ensure!(guard(|| termimad::text(&md).to_string())? == guard(|| MadSkin::default().text(&md, None).to_string())?, "global", "{md:?}: text isn't the text of the default skin");
            ensure!(guard(|| termimad::inline(&md).to_string())? == guard(|| MadSkin::default().inline(&md).to_string())?, "global", "{md:?}: inline isn't the one of the default skin");
            Ok(())
        },
    });
}
fn raw_texts(ctx: &Ctx) {
    let sk = skins();
    let toks = ["a", "*b*", "**", " ", "`c`", "\n", "* ", "# ", "|d|", "|-|", "---", "> ", "    ", "漢", "~~"];
    let seqs = Seqs { a: toks.len() as u64, min: 1, max: ctx.by(4, 5) };
    let text = |i: u64| seqs.get(i).into_iter().map(|k| toks[k]).collect::<String>();
    ctx.family(&Fam {
        name: "raw-texts".into(),
        bounds: format!("FmtText::raw_str on all texts of <= {} elements among {toks:?}, {} skins, no width and widths 5 and 12", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"text": text(i)}),
        c: |i, l: &mut Local| {
            let src = text(i);
            for (sn, skin) in &sk {
                let p = sty_of(&skin.paragraph.compound_style);
                for w in [None, Some(5), Some(12)] {
                    let out = guard(|| FmtText::raw_str(skin, &src, w).to_string())?;
                    l.trace(h64(&out));
                    let r = rows(&out).or_else(|e| viol("stream", e))?;
                    let what = format!("skin {sn}, {src:?}, width {w:?}: {out:?}");
                    for g in r.iter().flat_map(|r| &r.g) { ensure!(g.st == p, "raw-style", "{what}: {:?} has style {:?}", g.ch, g.st); }
                    if w.is_none() {
                        let want: Vec<String> = src.lines().map(|s| format!("{}{s}", " ".repeat(skin.paragraph.left_margin))).collect();
                        ensure!(r.iter().map(|r| r.text()).collect::<Vec<_>>() == want, "raw", "{what}: instead of {want:?}");
                    } else {
                        let dense = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                        ensure!(dense(&r.iter().map(|r| r.text()).collect::<String>()) == dense(&src), "raw", "{what}: not the chars of the source");
                    }
                }
            }
            Ok(())
        },
    });
}
fn special_chars(ctx: &Ctx) {
    let toks = ["!", "**!**", "*!*", "`!`", "**?**", "a", " ", "**b**", "**!!**", "**漢**"];
    let seqs = Seqs { a: toks.len() as u64, min: 1, max: ctx.by(5, 6) };
    let text = |i: u64| seqs.get(i).into_iter().map(|k| toks[k]).collect::<String>();
    let mut bases = skins();
    for (_, s) in &mut bases {
        s.special_chars.insert(Compound::raw_str("!").bold(), StyledChar::from_fg_char(Color::Red, '⚠'));
        s.special_chars.insert(Compound::raw_str("?").bold(), StyledChar::new(CompoundStyle::new(None, Some(gray(7)), Attribute::Bold.into()), '¿'));
        s.special_chars.insert(Compound::raw_str("!").code(), StyledChar::from_fg_char(Color::Blue, '!'));
    }
    ctx.family(&Fam {
        name: "special-chars".into(),
        bounds: format!("all inlines of <= {} elements among {toks:?}, {} skins in which **!**, **?** and `!` have replacements", seqs.max, bases.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": text(i)}),
        c: |i, l: &mut Local| {
            let md = text(i);
            for (sn, skin) in &bases {
                let mut want = Vec::new();
                for c in &Composite::from_inline(&md).compounds {
                    let special = match (c.src, c.bold, c.italic, c.strikeout, c.code) {
                        ("!", true, false, false, false) => Some(('⚠', Sty { fg: col_of(Color::Red), ..Default::default() })),
                        ("?", true, false, false, false) => Some(('¿', sty_of(&CompoundStyle::new(None, Some(gray(7)), Attribute::Bold.into())))),
                        ("!", false, false, false, true) => Some(('!', Sty { fg: col_of(Color::Blue), ..Default::default() })),
                        _ => None,
                    };
                    match special { Some(s) => { want.push(s); l.nontrivial(); } None => { let st = compound_sty(skin, &skin.paragraph, c); want.extend(c.src.chars().map(|c| (c, st))); } }
                }
                let out = guard(|| skin.inline(&md).to_string())?;
                l.trace(h64(&out));
                check_inline(&out, &want, skin, &format!("skin {sn}, {md:?}"))?;
            }
            Ok(())
        },
    });
}

// ---------------------------------------------------------------- C29

fn tbl_fit(ctx: &Ctx) {
    let cells: &[usize] = &[0, 1, 3, 4, 5, 8, 13, 40];
    // what's seen in a column: up to two cells
    let mut seen: Vec<Vec<usize>> = vec![vec![]];
    for (i, a) in cells.iter().enumerate() { seen.push(vec![*a]); for b in &cells[i + 1..] { seen.push(vec![*a, *b]); } }
    seen.push(vec![4, 4, 4, 30]);
    seen.push(vec![100, 2, 2, 2, 2]);
    let maxc = ctx.by(3, 4);
    let seqs = Seqs { a: seen.len() as u64, min: 0, max: maxc };
    let maxw = ctx.by(70usize, 140);
    ctx.family(&Fam {
        name: "table-fits".into(),
        bounds: format!("all tables of <= {maxc} columns with cells among {} sets of widths, available widths 0..={maxw}, 65535 and more", seen.len()),
        n: seqs.len(),
        d: |i| json!({"columns": seqs.get(i).into_iter().map(|k| &seen[k]).collect::<Vec<_>>()}),
        c: |i, l: &mut Local| {
            let cols: Vec<&Vec<usize>> = seqs.get(i).into_iter().map(|k| &seen[k]).collect();
            check_fit(&cols, (0..=maxw).chain([65535, 1 << 40]), l)
        },
    });
    // many columns of few kinds
    let kinds: Vec<Vec<usize>> = vec![vec![2], vec![9, 2], vec![30]];
    let seqs = Seqs { a: 3, min: 4, max: ctx.by(10, 13) };
    ctx.family(&Fam {
        name: "many-columns".into(),
        bounds: format!("all tables of 4 to {} columns among {kinds:?}, available widths from too small to 400", seqs.max),
        n: seqs.len(),
        d: |i| json!({"columns": seqs.get(i).into_iter().map(|k| &kinds[k]).collect::<Vec<_>>()}),
        c: |i, l: &mut Local| {
            let cols: Vec<&Vec<usize>> = seqs.get(i).into_iter().map(|k| &kinds[k]).collect();
            check_fit(&cols, (cols.len() * 4 - 3..cols.len() * 4 + 60).chain((100..400).step_by(7)), l)
        },
    });
}
fn check_fit(cols: &[&Vec<usize>], widths: impl Iterator<Item = usize>, l: &mut Local) -> Res {
    let n = cols.len();
    let natural: Vec<usize> = cols.iter().map(|c| c.iter().copied().max().unwrap_or(0).max(3)).collect();
    let total = natural.iter().sum::<usize>() + n + 1;
    for w in widths {
        let fit = guard(|| TblFit::new(n, w))?;
        let what = format!("columns {cols:?} in {w}");
        match fit {
            Err(e) => ensure!(w < 4 * n + 1, "fit-error", "{what}: {e}"),
            Ok(mut fit) => {
                ensure!(w >= 4 * n + 1, "fit-error", "{what}: no error");
                guard(|| { for (i, c) in cols.iter().enumerate() { for x in *c { fit.see_cell(i, *x); } } fit.see_cell(n, 50); fit.see_cell(n + 7, 1); })?;
                let r = guard(|| fit.fit())?;
                l.trace(h64(&(&r.col_widths, r.reduced)));
                ensure!(r.col_widths.len() == n, "fit", "{what}: {:?}", r.col_widths);
                let sum = r.col_widths.iter().sum::<usize>() + n + 1;
                if total <= w { ensure!(r.col_widths == natural && !r.reduced, "fit-natural", "{what}: {:?} (reduced: {}) instead of {natural:?}", r.col_widths, r.reduced); }
                else {
                    l.nontrivial();
                    ensure!(r.reduced, "fit-reduced", "{what}: not told reduced");
                    ensure!(sum == w, "fit-width", "{what}: {:?} takes {sum} columns", r.col_widths);
                    for (x, y) in r.col_widths.iter().zip(&natural) { ensure!(*x >= 3 && x <= y, "fit-column", "{what}: {:?}, for natural widths {natural:?}", r.col_widths); }
                }
            }
        }
    }
    Ok(())
}
