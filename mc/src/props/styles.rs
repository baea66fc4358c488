//! Skins as data: serialization (C17), style strings (C18), skin-wide changes (C26)
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use serde_json::{json, Value};
use termimad::crossterm::style::{Attribute, Attributes, Color};
use termimad::*;

pub fn run(ctx: &Ctx) {
    match ctx.property.as_str() {
        "C17" => { compound_rt(ctx); line_rt(ctx); char_rt(ctx); bar_rt(ctx); skin_rt(ctx); partial(ctx); headers(ctx); }
        "C18" => { colors(ctx); names(ctx); token_seqs(ctx); written(ctx); }
        _ => { skin_parts(ctx); blend_styles(ctx); blend_skins(ctx); setters(ctx); }
    }
}

// ---------------------------------------------------------------- values

const ATTRS: [Attribute; 10] = [Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::Reverse, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined, Attribute::SlowBlink, Attribute::RapidBlink];
fn named() -> Vec<Color> {
    use Color::*;
    vec![Reset, Black, DarkGrey, Red, DarkRed, Green, DarkGreen, Yellow, DarkYellow, Blue, DarkBlue, Magenta, DarkMagenta, Cyan, DarkCyan, White, Grey]
}
fn palette() -> Vec<Option<Color>> {
    let mut v: Vec<Option<Color>> = vec![None];
    v.extend(named().into_iter().map(Some));
    for n in [0, 9, 16, 178, 232, 255] { v.push(Some(Color::AnsiValue(n))); }
    for (r, g, b) in [(0, 0, 0), (1, 20, 255), (255, 255, 255)] { v.push(Some(Color::Rgb { r, g, b })); }
    v
}
fn attrs(bits: usize) -> Attributes {
    let mut a = Attributes::default();
    for (i, x) in ATTRS.iter().enumerate() { if bits >> i & 1 == 1 { a.set(*x); } }
    a
}
/// some styles, for the parts of skins
fn some_styles() -> Vec<CompoundStyle> {
    let c = |n: u8| Some(Color::AnsiValue(n));
    let mut v = vec![CompoundStyle::default()];
    for (i, x) in palette().into_iter().enumerate().skip(1) {
        v.push(CompoundStyle::new(x, None, attrs(1 << (i % 10))));
        v.push(CompoundStyle::new(None, x, attrs(0)));
        v.push(CompoundStyle::new(c(33), x, attrs(3 << (i % 9))));
    }
    v
}
fn same_style(a: &CompoundStyle, b: &CompoundStyle) -> bool {
    sty_of(a) == sty_of(b) && a.get_fg().is_some() == b.get_fg().is_some() && a.get_bg().is_some() == b.get_bg().is_some()
}
fn same_line(a: &LineStyle, b: &LineStyle) -> bool {
    same_style(&a.compound_style, &b.compound_style) && a.align == b.align && a.left_margin == b.left_margin && a.right_margin == b.right_margin
}
/// also compares what is displayed, which is kept separately in a StyledChar
fn same_char(a: &StyledChar, b: &StyledChar) -> bool {
    a.nude_char() == b.nude_char() && same_style(a.compound_style(), b.compound_style()) && a.to_string().chars().filter(|c| *c == a.nude_char()).count() > 0 && {
        let (x, y) = (shown(a), shown(b));
        x == y
    }
}
fn shown(c: &StyledChar) -> Option<(char, Sty)> {
    let mut st = Sty::default();
    for t in Toks::new(&c.to_string()) {
        match t { Tok::Sgr(p) => { apply_sgr(&mut st, &p).ok()?; } Tok::Ch(ch) => return Some((ch, st)), _ => return None }
    }
    None
}
fn diff(a: &MadSkin, b: &MadSkin) -> Option<String> {
    for (n, x, y) in [("bold", &a.bold, &b.bold), ("italic", &a.italic, &b.italic), ("strikeout", &a.strikeout, &b.strikeout), ("inline_code", &a.inline_code, &b.inline_code), ("ellipsis", &a.ellipsis, &b.ellipsis)] {
        if !same_style(x, y) { return Some(format!("{n}: {x:?} instead of {y:?}")); }
    }
    for (n, x, y) in [("paragraph", &a.paragraph, &b.paragraph), ("code_block", &a.code_block, &b.code_block), ("table", &a.table, &b.table)] {
        if !same_line(x, y) { return Some(format!("{n}: {x:?} instead of {y:?}")); }
    }
    for (i, (x, y)) in a.headers.iter().zip(&b.headers).enumerate() {
        if !same_line(x, y) { return Some(format!("headers[{i}]: {x:?} instead of {y:?}")); }
    }
    for (n, x, y) in [("bullet", &a.bullet, &b.bullet), ("quote_mark", &a.quote_mark, &b.quote_mark), ("horizontal_rule", &a.horizontal_rule, &b.horizontal_rule), ("scrollbar.track", &a.scrollbar.track, &b.scrollbar.track), ("scrollbar.thumb", &a.scrollbar.thumb, &b.scrollbar.thumb)] {
        if !same_char(x, y) { return Some(format!("{n}: {x:?} instead of {y:?}")); }
    }
    if a.table_border_chars != b.table_border_chars { return Some("table_border_chars".into()); }
    if a.list_items_indentation_mode != b.list_items_indentation_mode { return Some("list_items_indentation_mode".into()); }
    None
}

// ---------------------------------------------------------------- C17

fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(t: &T) -> Result<(String, T), Viol> {
    let s = guard(|| serde_json::to_string(t))?.or_else(|e| viol("serialize", e.to_string()))?;
    let r = guard(|| serde_json::from_str(&s))?.or_else(|e| viol("deserialize", format!("{s} isn't read back: {e}")))?;
    Ok((s, r))
}
fn compound_rt(ctx: &Ctx) {
    let p = palette();
    let n = p.len() as u64;
    let sets = ctx.by(176u64, 1024);
    ctx.family(&Fam {
        name: "compound-style".into(),
        bounds: format!("{n} foregrounds x {n} backgrounds x {sets} attribute sets"),
        n: n * n,
        d: |i| json!({"fg": format!("{:?}", p[(i % n) as usize]), "bg": format!("{:?}", p[(i / n) as usize])}),
        c: |i, l: &mut Local| {
            for bits in 0..1024usize {
                if sets < 1024 && bits.count_ones() > 3 { continue; }
                let cs = CompoundStyle::new(p[(i % n) as usize], p[(i / n) as usize], attrs(bits));
                let (s, r) = rt(&cs)?;
                l.trace(h64(&s));
                ensure!(same_style(&cs, &r), "compound", "{s}: {r:?} instead of {cs:?}");
            }
            Ok(())
        },
    });
}
fn line_rt(ctx: &Ctx) {
    let st = some_styles();
    let margins = [0usize, 1, 2, 9, 10, 255, 256, 65534, 65535];
    let n = st.len() as u64;
    ctx.family(&Fam {
        name: "line-style".into(),
        bounds: format!("{n} styles x 4 alignments x all pairs of {margins:?} as margins"),
        n,
        d: |i| json!({"style": format!("{:?}", st[i as usize])}),
        c: |i, l: &mut Local| {
            for align in ALIGNS { for lm in margins { for rm in margins {
                let ls = LineStyle { compound_style: st[i as usize].clone(), align, left_margin: lm, right_margin: rm };
                let (s, r) = rt(&ls)?;
                l.trace(h64(&s));
                ensure!(same_line(&ls, &r), "line", "{s}: {r:?} instead of {ls:?}");
            } } }
            Ok(())
        },
    });
}
fn char_rt(ctx: &Ctx) {
    let st = [CompoundStyle::default(), CompoundStyle::with_fg(Color::Red), CompoundStyle::new(None, Some(Color::Rgb { r: 1, g: 2, b: 3 }), attrs(5))];
    let step = 256u64;
    ctx.family(&Fam {
        name: "styled-char".into(),
        bounds: "all unicode chars x 3 styles".into(),
        n: 0x110000 / step,
        d: |i| json!({"chars from": i * step}),
        c: |i, l: &mut Local| {
            for c in (i * step..(i + 1) * step).filter_map(|c| char::from_u32(c as u32)) {
                for s in &st {
                    let sc = StyledChar::new(s.clone(), c);
                    let (s, r) = rt(&sc)?;
                    l.trace(h64(&s));
                    ensure!(sc.nude_char() == r.nude_char() && same_style(sc.compound_style(), r.compound_style()), "char", "{s:?}: {r:?} instead of {sc:?}");
                    if !c.is_control() { ensure!(same_char(&sc, &r), "char", "{s:?}: {r:?} is displayed differently from {sc:?}"); }
                }
            }
            Ok(())
        },
    });
}
fn bar_rt(ctx: &Ctx) {
    let mut v = Vec::new();
    for c in ['▐', '5', ' ', '|'] { for fg in [None, Some(gray(5)), Some(gray(21)), Some(Color::Red)] { for bg in [None, Some(gray(5)), Some(Color::Blue)] { for a in [0, 1, 0b11] {
        v.push(StyledChar::new(CompoundStyle::new(fg, bg, attrs(a)), c));
    } } } }
    let n = v.len() as u64;
    ctx.family(&Fam {
        name: "scrollbar-style".into(),
        bounds: format!("{n} tracks x {n} thumbs"),
        n,
        d: |i| json!({"track": format!("{:?}", v[i as usize])}),
        c: |i, l: &mut Local| {
            for th in &v {
                let bar = ScrollBarStyle { track: v[i as usize].clone(), thumb: th.clone() };
                let mut skin = MadSkin::no_style();
                skin.scrollbar = bar.clone();
                let (s, r) = rt(&skin)?;
                let r = r.scrollbar;
                l.trace(h64(&s));
                ensure!(same_char(&bar.track, &r.track) && same_char(&bar.thumb, &r.thumb), "scrollbar", "{s}: {r:?} instead of {bar:?}");
            }
            Ok(())
        },
    });
}
/// change one part of a skin; the number of parts is NPARTS
const NPARTS: usize = 23;
fn set_part(s: &mut MadSkin, part: usize, cs: &CompoundStyle, i: usize) {
    let ls = LineStyle { compound_style: cs.clone(), align: ALIGNS[i % 4], left_margin: i % 5, right_margin: i % 7 };
    let ch = ['*', '7', ' ', '(', '漢', 'x', '#'][i % 7];
    let sc = StyledChar::new(cs.clone(), ch);
    match part {
        0 => s.bold = cs.clone(), 1 => s.italic = cs.clone(), 2 => s.strikeout = cs.clone(), 3 => s.inline_code = cs.clone(), 4 => s.ellipsis = cs.clone(),
        5 => s.bullet = sc, 6 => s.quote_mark = sc, 7 => s.horizontal_rule = sc, 8 => s.scrollbar.track = sc, 9 => s.scrollbar.thumb = sc,
        10 => s.paragraph = ls, 11 => s.code_block = ls, 12 => s.table = ls,
        13 => s.table_border_chars = [STANDARD_TABLE_BORDER_CHARS, ASCII_TABLE_BORDER_CHARS, ROUNDED_TABLE_BORDER_CHARS][i % 3],
        14 => s.list_items_indentation_mode = [ListItemsIndentationMode::Block, ListItemsIndentationMode::FirstLineOnly][i % 2],
        p => s.headers[p - 15] = ls,
    }
}
fn bases() -> Vec<MadSkin> {
    let mut v: Vec<MadSkin> = skins().into_iter().map(|(_, s)| s).collect();
    v.push(MadSkin::default_light());
    v
}
fn skin_rt(ctx: &Ctx) {
    let b = bases();
    let st = some_styles();
    let n = st.len() as u64;
    ctx.family(&Fam {
        name: "skin".into(),
        bounds: format!("{} base skins, {NPARTS} parts, {n} styles: each pair of parts changed for the first base, each part for others", b.len()),
        n: n * NPARTS as u64,
        d: |i| json!({"style": format!("{:?}", st[(i % n) as usize]), "part": i / n}),
        c: |i, l: &mut Local| {
            let (k, part) = ((i % n) as usize, (i / n) as usize);
            let check = |s: &MadSkin, l: &mut Local| {
                let (js, r) = rt(s)?;
                l.trace(h64(&js));
                let d = diff(&r, s);
                ensure!(d.is_none(), "skin", "{} -- {js}", d.unwrap());
                Ok(())
            };
            for (bi, base) in b.iter().enumerate() {
                let mut s = base.clone();
                set_part(&mut s, part, &st[k], k);
                check(&s, l)?;
                if bi == 0 { for p2 in 0..part { set_part(&mut s, p2, &st[(k + p2 + 1) % st.len()], k / 3); check(&s, l)?; s = base.clone(); set_part(&mut s, part, &st[k], k); } }
            }
            Ok(())
        },
    });
}
/// a skin read from only some keys is the default one with only those changes
fn partial(ctx: &Ctx) {
    let keys: &[(&str, usize)] = &[("bold", 0), ("italic", 1), ("strikeout", 2), ("inline_code", 3), ("inline-code", 3), ("ellipsis", 4), ("bullet", 5), ("quote_mark", 6), ("quote", 6), ("quote-mark", 6),
        ("horizontal_rule", 7), ("horizontal-rule", 7), ("rule", 7), ("paragraph", 10), ("code_block", 11), ("code-block", 11), ("table", 12)];
    let st = some_styles();
    let n = st.len();
    ctx.family(&Fam {
        name: "partial-skin".into(),
        bounds: format!("each pair of {} keys x {n} styles, headers changed together, table borders", keys.len()),
        n: (keys.len() * n) as u64,
        d: |i| json!({"key": keys[i as usize % keys.len()].0, "style": i as usize / keys.len()}),
        c: |i, l: &mut Local| {
            let (k1, si) = (i as usize % keys.len(), i as usize / keys.len());
            for k2 in 0..=keys.len() {
                let mut want = MadSkin::default();
                let mut m = serde_json::Map::new();
                for (j, k) in [(si, Some(k1)), (si + 1, (k2 < keys.len()).then_some(k2))] {
                    let Some(k) = k else { continue };
                    set_part(&mut want, keys[k].1, &st[j % n], j);
                    let all = serde_json::to_value(&want).map_err(|e| Viol { sig: "serialize".into(), msg: e.to_string() })?;
                    let canon = match keys[k].1 { 3 => "inline_code", 6 => "quote", 7 => "horizontal_rule", 11 => "code_block", _ => keys[k].0 };
                    m.insert(keys[k].0.to_string(), all[canon].clone());
                }
                if k2 < keys.len() && k2 != k1 && keys[k1].1 == keys[k2].1 { continue; }
                // headers given as a string are all changed
                if k2 == keys.len() {
                    m.insert("headers".into(), json!("red bold right"));
                    for h in &mut want.headers { h.set_fg(Color::Red); h.add_attr(Attribute::Bold); h.align = Alignment::Right; }
                    m.insert("table_border_chars".into(), json!("rounded"));
                    want.table_border_chars = ROUNDED_TABLE_BORDER_CHARS;
                }
                let js = Value::Object(m).to_string();
                let r: MadSkin = guard(|| serde_json::from_str(&js))?.or_else(|e| viol("deserialize", format!("{js}: {e}")))?;
                l.trace(h64(&js));
                let d = diff(&r, &want);
                ensure!(d.is_none(), "partial", "{js}: {}", d.unwrap());
            }
            Ok(())
        },
    });
}

/// headers given together or one by one; keys of border chars and list modes
fn headers(ctx: &Ctx) {
    let fgs = ["", "red", "ansi(7)", "#010203"];
    let attrs = ["", "bold", "underlined reverse", "italic dim"];
    let aligns = ["", "left", "center", "right"];
    ctx.family(&Fam {
        name: "headers".into(),
        bounds: format!("a style for all headers made of all combinations of a foreground and a background among {fgs:?}, attributes among {attrs:?} and an alignment among {aligns:?}; the same as an array for the first 0 to 10 headers; all keys of borders and list modes"),
        n: 256,
        d: |i| json!({"foreground": fgs[(i % 4) as usize], "background": fgs[(i / 4 % 4) as usize], "attributes": attrs[(i / 16 % 4) as usize], "alignment": aligns[(i / 64) as usize]}),
        c: |i, l: &mut Local| {
            let (f, b, at, al) = ((i % 4) as usize, (i / 4 % 4) as usize, (i / 16 % 4) as usize, (i / 64) as usize);
            let cols = [None, Some(Color::Red), Some(Color::AnsiValue(7)), Some(Color::Rgb { r: 1, g: 2, b: 3 })];
            let bg = fgs[b];
            let fg = if b > 0 && f == 0 { "none" } else { fgs[f] };
            let a: &[Attribute] = [&[][..], &[Attribute::Bold], &[Attribute::Underlined, Attribute::Reverse], &[Attribute::Italic, Attribute::Dim]][at];
            let align = [Alignment::Unspecified, Alignment::Left, Alignment::Center, Alignment::Right][al];
            let text = format!("{fg} {bg} {} {}", attrs[at], aligns[al]);
            let js = json!({"headers": text}).to_string();
            let r: MadSkin = guard(|| serde_json::from_str(&js))?.or_else(|e| viol("deserialize", format!("{js}: {e}")))?;
            let mut want = MadSkin::default();
            for h in &mut want.headers {
                if let Some(c) = cols[f] { h.set_fg(c) }
                if let Some(c) = cols[b] { h.set_bg(c) }
                for x in a { h.add_attr(*x) }
                if al > 0 { h.align = align }
            }
            let d = diff(&r, &want);
            ensure!(d.is_none(), "all-headers", "{js}: {}", d.unwrap());
            for n in 0..=10usize {
                // all are different
                let js = json!({"headers": (0..n).map(|k| format!("{text} {} {k}", k + 1)).collect::<Vec<_>>()}).to_string();
                let r: MadSkin = guard(|| serde_json::from_str(&js))?.or_else(|e| viol("deserialize", format!("{js}: {e}")))?;
                let mut want = MadSkin::default();
                for (k, h) in want.headers.iter_mut().enumerate().take(n) {
                    let mut cs = CompoundStyle::new(cols[f], cols[b], Default::default());
                    for x in a { cs.add_attr(*x) }
                    *h = LineStyle { compound_style: cs, align, left_margin: k + 1, right_margin: k };
                }
                let d = diff(&r, &want);
                ensure!(d.is_none(), "headers", "{js}: {}", d.unwrap());
            }
            if i == 0 {
                for (key, chars) in [("standard", STANDARD_TABLE_BORDER_CHARS), ("ascii", ASCII_TABLE_BORDER_CHARS), ("rounded", ROUNDED_TABLE_BORDER_CHARS)] {
                    ensure!(TableBorderChars::by_key(key) == Some(chars) && chars.key() == Some(key), "border-key", "border chars {key}");
                    for k in ["table_border_chars", "table-border-chars"] {
                        let js = format!("{{\"{k}\":\"{key}\"}}");
                        let r: MadSkin = serde_json::from_str(&js).or_else(|e| viol("deserialize", format!("{js}: {e}")))?;
                        let mut want = MadSkin::default();
                        want.table_border_chars = chars;
                        let d = diff(&r, &want);
                        ensure!(d.is_none(), "border-key", "{js}: {}", d.unwrap());
                    }
                }
                let mut other = STANDARD_TABLE_BORDER_CHARS.clone();
                other.cross = 'x';
                ensure!(other.key().is_none() && TableBorderChars::by_key("other").is_none(), "border-key", "unknown border chars");
                for (key, mode) in [("block", ListItemsIndentationMode::Block), ("first_line_only", ListItemsIndentationMode::FirstLineOnly)] {
                    ensure!(ListItemsIndentationMode::by_key(key) == Some(mode) && mode.key() == key, "list-key", "list mode {key}");
                    for k in ["list_items_indentation_mode", "list-items-indentation-mode"] {
                        let js = format!("{{\"{k}\":\"{key}\"}}");
                        let r: MadSkin = serde_json::from_str(&js).or_else(|e| viol("deserialize", format!("{js}: {e}")))?;
                        let mut want = MadSkin::default();
                        want.list_items_indentation_mode = mode;
                        let d = diff(&r, &want);
                        ensure!(d.is_none(), "list-key", "{js}: {}", d.unwrap());
                    }
                }
            }
            l.trace(h64(&js));
            l.nontrivial();
            Ok(())
        },
    });
}

// ---------------------------------------------------------------- C18

fn color_is(s: &str, want: Option<Color>) -> Res {
    let got = guard(|| parse_color(s))?;
    match (&got, want) {
        (Ok(c), Some(w)) => ensure!(col_of(*c) == col_of(w) && (*c == Color::Reset) == (w == Color::Reset), "color", "{s:?} is parsed as {c:?} instead of {w:?}"),
        (Err(_), None) => {}
        _ => return viol("color", format!("{s:?} gives {got:?} instead of {want:?}")),
    }
    let t = guard(|| parse_style_tokens(s))?;
    match (&t, want) {
        (Ok(t), Some(w)) => match t.as_slice() {
            [StyleToken::Color(c)] if col_of(*c) == col_of(w) => Ok(()),
            _ => viol("color-token", format!("{s:?} gives {t:?}")),
        },
        (Err(_), None) => Ok(()),
        _ => viol("color-token", format!("{s:?} gives {t:?} instead of {want:?}")),
    }
}
fn colors(ctx: &Ctx) {
    ctx.family(&Fam {
        name: "ansi-gray-rgb".into(),
        bounds: "ansi(n) and gray(n) for n <= 1000, rgb() with each channel in 0..=300, blanks and cases".into(),
        n: 1001,
        d: |i| json!({"n": i}),
        c: |i, l: &mut Local| {
            let n = i as usize;
            let b = (n < 256).then_some(n as u8);
            for (f, x) in [("ansi", 0), ("Ansi", 0), ("ANSI", 0), ("gray", 1), ("grey", 1), ("GREY", 1), ("greyscale", 1), ("Grayscale", 1)] {
                color_is(&format!("{f}({n})"), if x == 0 { b.map(Color::AnsiValue) } else { b.filter(|b| *b < 24).map(|b| Color::AnsiValue(232 + b)) })?;
            }
            if n <= 300 { for o in [0u8, 7, 255] { for sep in [",", ", ", ",  ", ",\t"] { for f in ["rgb", "RGB"] {
                color_is(&format!("{f}({n}{sep}{o}{sep}9)"), b.map(|b| Color::Rgb { r: b, g: o, b: 9 }))?;
                color_is(&format!("{f}({o}{sep}{n}{sep}9)"), b.map(|b| Color::Rgb { r: o, g: b, b: 9 }))?;
                color_is(&format!("{f}({o}{sep}9{sep}{n})"), b.map(|b| Color::Rgb { r: o, g: 9, b }))?;
            } } } }
            l.trace(i);
            Ok(())
        },
    });
    ctx.family(&Fam {
        name: "hex-colors".into(),
        bounds: if ctx.quick() { "all #rgb, all #rrggbb with two fixed channels, both cases".into() } else { "all #rgb and #rrggbb".to_string() },
        n: ctx.by(4096, 4096),
        d: |i| json!({"rgb": format!("{i:03x}")}),
        c: |i, l: &mut Local| {
            let (r, g, b) = ((i >> 8) as u8, (i >> 4 & 15u64) as u8, (i & 15u64) as u8);
            color_is(&format!("#{i:03x}"), Some(Color::Rgb { r: r * 17, g: g * 17, b: b * 17 }))?;
            color_is(&format!("#{i:03X}"), Some(Color::Rgb { r: r * 17, g: g * 17, b: b * 17 }))?;
            l.trace(i);
            if l.ctx.quick() {
                let v = (i & 255) as u8;
                for (r, g, b) in [(v, 1, 0xab), (0xcd, v, 2), (3, 0xef, v)] {
                    color_is(&format!("#{r:02x}{g:02x}{b:02x}"), Some(Color::Rgb { r, g, b }))?;
                    color_is(&format!("#{r:02X}{g:02X}{b:02X}"), Some(Color::Rgb { r, g, b }))?;
                }
            } else {
                for j in 0..4096u32 {
                    let c = (i as u32) << 12 | j;
                    let want = Color::Rgb { r: (c >> 16) as u8, g: (c >> 8) as u8, b: c as u8 };
                    let s = format!("#{c:06x}");
                    let got = guard(|| parse_color(&s))?;
                    ensure!(matches!(got, Ok(x) if x == want), "color", "{s} is parsed as {got:?}");
                }
            }
            Ok(())
        },
    });
}
/// all named tokens and what they mean
fn vocabulary() -> Vec<(&'static str, StyleToken)> {
    use StyleToken as T;
    let c = T::Color; let a = T::Attribute;
    vec![
        ("black", c(Color::AnsiValue(16))), ("blue", c(Color::Blue)), ("cyan", c(Color::Cyan)), ("darkblue", c(Color::DarkBlue)), ("darkcyan", c(Color::DarkCyan)),
        ("darkgreen", c(Color::DarkGreen)), ("darkgrey", c(Color::DarkGrey)), ("darkmagenta", c(Color::DarkMagenta)), ("darkred", c(Color::DarkRed)), ("green", c(Color::Green)),
        ("grey", c(Color::Grey)), ("magenta", c(Color::Magenta)), ("red", c(Color::Red)), ("yellow", c(Color::Yellow)), ("darkyellow", c(Color::DarkYellow)), ("white", c(Color::AnsiValue(231))),
        ("bold", a(Attribute::Bold)), ("crossedout", a(Attribute::CrossedOut)), ("crossed_out", a(Attribute::CrossedOut)), ("crossed-out", a(Attribute::CrossedOut)), ("dim", a(Attribute::Dim)),
        ("italic", a(Attribute::Italic)), ("underlined", a(Attribute::Underlined)), ("under_lined", a(Attribute::Underlined)), ("under-lined", a(Attribute::Underlined)),
        ("overlined", a(Attribute::OverLined)), ("over_lined", a(Attribute::OverLined)), ("over-lined", a(Attribute::OverLined)), ("reverse", a(Attribute::Reverse)), ("encircled", a(Attribute::Encircled)),
        ("slowblink", a(Attribute::SlowBlink)), ("slow_blink", a(Attribute::SlowBlink)), ("slow-blink", a(Attribute::SlowBlink)), ("rapidblink", a(Attribute::RapidBlink)), ("rapid_blink", a(Attribute::RapidBlink)), ("rapid-blink", a(Attribute::RapidBlink)),
        ("left", T::Align(Alignment::Left)), ("center", T::Align(Alignment::Center)), ("right", T::Align(Alignment::Right)), ("none", T::None),
        ("0", T::Dimension(0)), ("7", T::Dimension(7)), ("42", T::Dimension(42)), ("65535", T::Dimension(65535)),
        ("|", T::Char('|')), ("é", T::Char('é')), ("漢", T::Char('漢')), ("*", T::Char('*')), ("#", T::Char('#')), ("x", T::Char('x')), ("•", T::Char('•')),
    ]
}
/// the meaning of a sequence of tokens
struct Meaning { fg: Option<Color>, bg: Option<Color>, attrs: Attributes, align: Alignment, lm: usize, rm: usize, ch: Option<char> }
fn meaning(t: &[StyleToken]) -> Meaning {
    let mut m = Meaning { fg: None, bg: None, attrs: Attributes::default(), align: Alignment::Unspecified, lm: 0, rm: 0, ch: None };
    let (mut colors, mut dims) = (0, 0);
    for t in t {
        match t {
            StyleToken::Color(c) => { if colors == 0 { m.fg = Some(*c) } else { m.bg = Some(*c) } colors += 1; }
            StyleToken::None => colors += 1,
            StyleToken::Attribute(a) => m.attrs.set(*a),
            StyleToken::Align(a) => m.align = *a,
            StyleToken::Dimension(d) => { if dims == 0 { m.lm = *d as usize } else { m.rm = *d as usize } dims += 1; }
            StyleToken::Char(c) => { m.ch.get_or_insert(*c); }
        }
    }
    m
}
fn check_meaning(s: &str, want: &[StyleToken], l: &mut Local) -> Res {
    let eq = |a: &StyleToken, b: &StyleToken| match (a, b) { (StyleToken::Color(x), StyleToken::Color(y)) => col_of(*x) == col_of(*y) && (*x == Color::Reset) == (*y == Color::Reset), _ => a == b };
    let t = guard(|| parse_style_tokens(s))?.or_else(|e| viol("tokens", format!("{s:?}: {e}")))?;
    ensure!(t.len() == want.len() && t.iter().zip(want).all(|(a, b)| eq(a, b)), "tokens", "{s:?} is parsed as {t:?} instead of {want:?}");
    let m = meaning(want);
    let cs = CompoundStyle::new(m.fg, m.bg, m.attrs);
    let got = guard(|| parse_compound_style(s))?.or_else(|e| viol("compound", format!("{s:?}: {e}")))?;
    ensure!(same_style(&got, &cs), "compound", "{s:?} is parsed as {got:?} instead of {cs:?}");
    let ls = LineStyle { compound_style: cs.clone(), align: m.align, left_margin: m.lm, right_margin: m.rm };
    let got = guard(|| parse_line_style(s))?.or_else(|e| viol("line", format!("{s:?}: {e}")))?;
    ensure!(same_line(&got, &ls), "line", "{s:?} is parsed as {got:?} instead of {ls:?}");
    // (a single digit or space in first position may be taken as the char)
    let lead = s.chars().next().map_or(false, |c| c.is_ascii_digit() || c == ' ');
    if !lead {
        let sc = StyledChar::new(cs, m.ch.unwrap_or('~'));
        let got = guard(|| parse_styled_char(s, '~'))?.or_else(|e| viol("char", format!("{s:?}: {e}")))?;
        ensure!(same_char(&got, &sc), "char", "{s:?} is parsed as {got:?} instead of {sc:?}");
    }
    l.trace(h64(s));
    Ok(())
}
fn cases(s: &str) -> Vec<String> {
    let mut v = vec![s.to_string(), s.to_uppercase()];
    let mut c = s.chars();
    if let Some(f) = c.next() { v.push(f.to_uppercase().chain(c).collect()); }
    v.dedup();
    v
}
const BAD: &[&str] = &["pissenlit", "rgb(300,0,0)", "gray(24)", "ansi(256)", "ab", "99999", "漢字"];
fn names(ctx: &Ctx) {
    let v = vocabulary();
    let n = v.len() as u64;
    ctx.family(&Fam {
        name: "vocabulary".into(),
        bounds: format!("all pairs of the {n} named tokens, in lower, upper and title case, and each with each of {BAD:?}"),
        n: n * n,
        d: |i| json!({"tokens": [v[(i / n) as usize].0, v[(i % n) as usize].0]}),
        c: |i, l: &mut Local| {
            let (a, b) = (&v[(i / n) as usize], &v[(i % n) as usize]);
            for x in cases(a.0) {
                let al = matches!(a.1, StyleToken::Char(_));
                if al && x != a.0 { continue; }
                check_meaning(&x, &[a.1], l)?;
                for y in cases(b.0) {
                    if matches!(b.1, StyleToken::Char(_)) && y != b.0 { continue; }
                    check_meaning(&format!("{x} {y}"), &[a.1, b.1], l)?;
                }
            }
            if let Some(bad) = BAD.get((i % n) as usize) {
                for s in [bad.to_string(), format!("{} {bad}", a.0), format!("{bad} {}", a.0)] {
                    let single_lead = s.chars().nth(1) == Some(' ');
                    ensure!(guard(|| parse_style_tokens(&s))?.is_err(), "bad-token", "{s:?} is accepted");
                    ensure!(guard(|| parse_compound_style(&s))?.is_err() && guard(|| parse_line_style(&s))?.is_err(), "bad-token", "{s:?} is accepted");
                    ensure!(guard(|| parse_styled_char(&s, '*'))?.is_err(), "bad-token", "{s:?} is accepted as a styled char ({single_lead})");
                }
            }
            Ok(())
        },
    });
}
fn token_seqs(ctx: &Ctx) {
    let v: Vec<(&str, StyleToken)> = {
        let mut v: Vec<_> = vocabulary().into_iter().filter(|t| ["red", "darkblue", "bold", "crossed_out", "left", "right", "none", "7", "42", "|", "x", "underlined"].contains(&t.0)).collect();
        v.push(("rgb(51, 47, 58)", StyleToken::Color(rgb(51, 47, 58))));
        v.push(("#fb0", StyleToken::Color(rgb(255, 187, 0))));
        v.push(("grey(15)", StyleToken::Color(gray(15))));
        v
    };
    let seqs = Seqs { a: v.len() as u64, min: 0, max: ctx.by(5, 6) };
    ctx.family(&Fam {
        name: "token-sequences".into(),
        bounds: format!("all sequences of <= {} tokens among {:?}, with single or multiple blanks", seqs.max, v.iter().map(|t| t.0).collect::<Vec<_>>()),
        n: seqs.len(),
        d: |i| json!({"tokens": seqs.get(i).into_iter().map(|k| v[k].0).collect::<Vec<_>>()}),
        c: |i, l: &mut Local| {
            let q = seqs.get(i);
            let t: Vec<StyleToken> = q.iter().map(|k| v[*k].1).collect();
            let w: Vec<&str> = q.iter().map(|k| v[*k].0).collect();
            check_meaning(&w.join(" "), &t, l)?;
            if q.len() < 4 { check_meaning(&format!(" {} ", w.join("  ")), &t, l)?; check_meaning(&w.join("\t"), &t, l)?; }
            Ok(())
        },
    });
}
/// written tokens are parsed back
fn written(ctx: &Ctx) {
    let mut v: Vec<StyleToken> = palette().into_iter().flatten().map(StyleToken::Color).collect();
    v.extend(ATTRS.iter().map(|a| StyleToken::Attribute(*a)));
    v.extend([Alignment::Left, Alignment::Center, Alignment::Right].into_iter().map(StyleToken::Align));
    v.extend([StyleToken::None, StyleToken::Dimension(0), StyleToken::Dimension(65535), StyleToken::Char('|'), StyleToken::Char('漢')]);
    let seqs = Seqs { a: v.len() as u64, min: 0, max: ctx.by(3, 4) };
    ctx.family(&Fam {
        name: "written-tokens".into(),
        bounds: format!("all sequences of <= {} tokens among {}", seqs.max, v.len()),
        n: seqs.len(),
        d: |i| json!({"tokens": seqs.get(i).into_iter().map(|k| format!("{:?}", v[k])).collect::<Vec<_>>()}),
        c: |i, l: &mut Local| {
            let t: Vec<StyleToken> = seqs.get(i).into_iter().map(|k| v[k]).collect();
            let s = guard(|| style_tokens_to_string(&t))?;
            check_meaning(&s, &t, l)?;
            let mut w = Vec::new();
            guard(|| write_style_tokens(&mut w, &t).unwrap())?;
            check_meaning(std::str::from_utf8(&w).unwrap_or("?"), &t, l)
        },
    });
}

// ---------------------------------------------------------------- C26

fn blended(c: Option<Color>, dest: Color, weight: f32) -> Option<Color> {
    if weight == 0.0 { return c; }
    c.map(|c| { let (a, b): (coolor::Color, coolor::Color) = (c.into(), dest.into()); coolor::Color::blend(a, 1.0 - weight, b, weight).into() })
}
fn blended_sty(s: Sty, dest: Color, w: f32) -> Sty {
    let back = |c: Option<Col>| c.map(|c| match c { Col::Idx(n) => Color::AnsiValue(n), Col::Rgb(r, g, b) => Color::Rgb { r, g, b } });
    Sty { fg: blended(back(s.fg), dest, w).and_then(col_of), bg: blended(back(s.bg), dest, w).and_then(col_of), ul: s.ul, attrs: s.attrs }
}
const DESTS: [Color; 4] = [Color::Black, Color::AnsiValue(178), Color::Rgb { r: 10, g: 200, b: 90 }, Color::White];
const WEIGHTS: [f32; 5] = [0.0, 0.25, 0.5, 0.9, 1.0];
fn blend_styles(ctx: &Ctx) {
    let p: Vec<Option<Color>> = palette().into_iter().filter(|c| *c != Some(Color::Reset)).collect();
    let n = p.len() as u64;
    ctx.family(&Fam {
        name: "blend-styles".into(),
        bounds: format!("{n} foregrounds x {n} backgrounds x {DESTS:?} x {WEIGHTS:?}, for compounds, lines and chars"),
        n: n * n,
        d: |i| json!({"fg": format!("{:?}", p[(i % n) as usize]), "bg": format!("{:?}", p[(i / n) as usize])}),
        c: |i, l: &mut Local| {
            for d in DESTS { for w in WEIGHTS {
                let cs = CompoundStyle::new(p[(i % n) as usize], p[(i / n) as usize], attrs(0b101));
                let want = CompoundStyle::new(blended(cs.get_fg(), d, w), blended(cs.get_bg(), d, w), attrs(0b101));
                let what = format!("{cs:?} blended with {d:?} at {w}");
                let mut c = cs.clone();
                guard(|| c.blend_with(d, w))?;
                ensure!(same_style(&c, &want), "blend", "{what}: {c:?} instead of {want:?}");
                let mut ls = LineStyle { compound_style: cs.clone(), align: Alignment::Right, left_margin: 1, right_margin: 2 };
                guard(|| ls.blend_with(d, w))?;
                ensure!(same_line(&ls, &LineStyle { compound_style: want.clone(), align: Alignment::Right, left_margin: 1, right_margin: 2 }), "blend-line", "{what}: {ls:?}");
                let mut sc = StyledChar::new(cs.clone(), '•');
                guard(|| sc.blend_with(d, w))?;
                ensure!(same_char(&sc, &StyledChar::new(want.clone(), '•')), "blend-char", "{what}: {sc:?} displayed {:?}", shown(&sc));
                l.trace(h64(&format!("{c:?}")));
            } }
            Ok(())
        },
    });
}
const DOC: &[&str] = &["aa *bb* **cc** ~~dd~~ `ee` ***f***", "* item", "  * sub **item**", "> quote", "# Header", "## H *2*", "### H3", "---", "    code", "|:-:|-:|", "|a|`b`|", "|-", "```", "#### h4", "漢字"];
fn rendered(s: &MadSkin, md: &str, w: usize) -> Result<Vec<Row>, Viol> {
    let out = guard(|| s.text(md, Some(w)).to_string())?;
    rows(&out).or_else(|e| viol("stream", e))
}
fn blend_skins(ctx: &Ctx) {
    let sk = bases();
    let seqs = Seqs { a: DOC.len() as u64, min: 1, max: ctx.by(3, 4) };
    ctx.family(&Fam {
        name: "blend-skins".into(),
        bounds: format!("all documents of <= {} lines among {DOC:?}, {} skins, {DESTS:?}, {WEIGHTS:?}, widths 7 and 30; shortened spans too", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": seqs.get(i).into_iter().map(|k| DOC[k]).collect::<Vec<_>>().join("\n")}),
        c: |i, l: &mut Local| {
            let md = seqs.get(i).into_iter().map(|k| DOC[k]).collect::<Vec<_>>().join("\n");
            for (si, s) in sk.iter().enumerate() { for (di, d) in DESTS.iter().enumerate() { for w in WEIGHTS {
                if di > 1 && (si > 0 || seqs.get(i).len() > 1) { continue; }
                let mut b = s.clone();
                guard(|| b.blend_with(*d, w))?;
                for width in [7, 30] {
                    let (r0, r1) = (rendered(s, &md, width)?, rendered(&b, &md, width)?);
                    ensure!(r0.len() == r1.len(), "blend-skin", "skin {si}, {md:?}: different rows");
                    for (a, b) in r0.iter().zip(&r1) {
                        ensure!(a.text() == b.text(), "blend-skin", "skin {si}, {md:?}: row {:?} instead of {:?}", b.text(), a.text());
                        for (x, y) in a.g.iter().zip(&b.g) {
                            let want = blended_sty(x.st, *d, w);
                            ensure!(want == y.st, "blend-skin", "skin {si}, {md:?} width {width}: {:?} is {:?} instead of {want:?} (was {:?}, blended with {d:?} at {w})", x.ch, y.st, x.st);
                        }
                    }
                    l.trace(h64(&(&md, si, di, width)));
                }
                if seqs.get(i).len() == 1 {
                    let short = |s: &MadSkin| -> Result<Vec<Row>, Viol> {
                        let mut v = Vec::new();
                        guard(|| s.write_composite_fill(&mut v, termimad::minimad::Composite::from_inline(&md), 4, Alignment::Left).unwrap())?;
                        rows(&String::from_utf8_lossy(&v)).or_else(|e| viol("stream", e))
                    };
                    let (r0, r1) = (short(s)?, short(&b)?);
                    for (x, y) in r0[0].g.iter().zip(&r1[0].g) {
                        let want = blended_sty(x.st, *d, w);
                        ensure!(want == y.st && x.ch == y.ch, "blend-skin", "skin {si}, shortened {md:?}: {:?} is {:?} instead of {want:?}", x.ch, y.st);
                    }
                }
            } } }
            Ok(())
        },
    });
}
fn setters(ctx: &Ctx) {
    let sk = bases();
    let seqs = Seqs { a: DOC.len() as u64, min: 1, max: ctx.by(3, 4) };
    let c = Color::Rgb { r: 9, g: 99, b: 199 };
    ctx.family(&Fam {
        name: "setters".into(),
        bounds: format!("all documents of <= {} lines among {DOC:?}, {} skins, set_fg, set_bg, set_headers_fg, set_headers_bg, limit_to_ascii, set_global_bg", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": seqs.get(i).into_iter().map(|k| DOC[k]).collect::<Vec<_>>().join("\n")}),
        c: |i, l: &mut Local| {
            let q = seqs.get(i);
            let md = q.iter().map(|k| DOC[*k]).collect::<Vec<_>>().join("\n");
            let fenced = q.contains(&12);
            let has = |p: &str| q.iter().any(|k| DOC[*k].contains(p));
            for (si, s) in sk.iter().enumerate() {
                let r0 = rendered(s, &md, 9)?;
                for op in 0..6 {
                    let mut b = s.clone();
                    guard(|| match op { 0 => b.set_fg(c), 1 => b.set_bg(c), 2 => b.set_headers_fg(c), 3 => b.set_headers_bg(c), 4 => b.limit_to_ascii(), _ => b.set_global_bg(c) })?;
                    let r1 = rendered(&b, &md, 9)?;
                    ensure!(r0.len() == r1.len(), "setter", "skin {si}, {md:?}: operation {op} changes the rows");
                    let texty = !fenced && !has("`") && !has("    code") && !has("|");
                    for (x, y) in r0.iter().zip(&r1) {
                        if op == 4 {
                            ensure!(y.g.iter().all(|g| g.ch.is_ascii()) || md.contains('漢'), "ascii", "skin {si}, {md:?}: {:?} isn't ASCII", y.text());
                            ensure!(x.width == y.width && x.g.iter().zip(&y.g).all(|(a, b)| a.st == b.st), "ascii", "skin {si}, {md:?}: limit_to_ascii changes more than chars");
                            continue;
                        }
                        ensure!(x.text() == y.text(), "setter", "skin {si}, {md:?}: operation {op} changes the text");
                        for (a, b) in x.g.iter().zip(&y.g) {
                            ensure!(a.st.attrs == b.st.attrs, "setter", "skin {si}, {md:?}: operation {op} changes attributes");
                            ensure!(if op % 2 == 0 { a.st.bg == b.st.bg && (b.st.fg == a.st.fg || b.st.fg == col_of(c)) } else { a.st.fg == b.st.fg && (b.st.bg == a.st.bg || b.st.bg == col_of(c)) }, "setter", "skin {si}, {md:?}: operation {op} gives {:?} to {:?}", b.st, b.ch);
                            if texty && op < 2 { ensure!(if op == 0 { b.st.fg == col_of(c) } else { b.st.bg == col_of(c) }, "setter", "skin {si}, {md:?}: operation {op} leaves {:?} to {:?}", b.st, b.ch); }
                        }
                    }
                    if matches!(op, 2 | 3 | 5) && q.len() == 1 && (md.starts_with('#') || op == 5 && (md == "---" || md.starts_with("aa"))) {
                        for g in r1.iter().flat_map(|r| &r.g).filter(|g| g.ch == 'H' || g.ch == 'h' || g.ch == '3' || g.ch == 'a' || md == "---") {
                            ensure!(if op == 2 { g.st.fg == col_of(c) } else { g.st.bg == col_of(c) }, "setter-headers", "skin {si}, {md:?}: {:?} is {:?}", g.ch, g.st);
                        }
                    }
                    l.trace(h64(&(&md, si, op)));
                }
            }
            Ok(())
        },
    });
}

/// the same skin with other styles
fn map_styles(s: &MadSkin, f: &dyn Fn(usize, &CompoundStyle) -> CompoundStyle) -> MadSkin {
    let mut r = s.clone();
    for (i, p) in [&mut r.bold, &mut r.italic, &mut r.strikeout, &mut r.inline_code, &mut r.ellipsis].into_iter().enumerate() { *p = f(i, p); }
    for (i, p) in [&mut r.bullet, &mut r.quote_mark, &mut r.horizontal_rule, &mut r.scrollbar.track, &mut r.scrollbar.thumb].into_iter().enumerate() { *p = StyledChar::new(f(5 + i, p.compound_style()), p.nude_char()); }
    for (i, p) in [&mut r.paragraph, &mut r.code_block, &mut r.table].into_iter().enumerate() { p.compound_style = f(10 + i, &p.compound_style); }
    for (i, p) in r.headers.iter_mut().enumerate() { p.compound_style = f(15 + i, &p.compound_style); }
    r
}
/// skins whose parts are defined in different ways
fn skin_parts(ctx: &Ctx) {
    let red = Some(Color::Rgb { r: 200, g: 10, b: 30 });
    let ansi = Some(Color::AnsiValue(33));
    let defs = [CompoundStyle::default(), CompoundStyle::new(red, None, attrs(0)), CompoundStyle::new(None, red, attrs(1)), CompoundStyle::new(ansi, red, attrs(6)), CompoundStyle::new(None, None, attrs(9)), CompoundStyle::new(red, ansi, attrs(0))];
    let nd = defs.len() as u64;
    let parts: Vec<usize> = (0..NPARTS).filter(|p| *p != 13 && *p != 14).collect();
    let np = parts.len() as u64;
    let c = Color::Rgb { r: 9, g: 99, b: 199 };
    ctx.family(&Fam {
        name: "skin-parts".into(),
        bounds: format!("skins whose {np} parts are styled in one of {nd} ways (no color, foreground, background, both, attributes) but for 2 of them, styled in another one; {DESTS:?}, {WEIGHTS:?}, and the setters"),
        n: np * np * nd * nd,
        d: |i| json!({"first part": parts[(i % np) as usize], "second part": parts[(i / np % np) as usize], "its style": i / np / np % nd, "style of others": i / np / np / nd}),
        c: |i, l: &mut Local| {
            let (p, p2, d, o) = (parts[(i % np) as usize], parts[(i / np % np) as usize], (i / np / np % nd) as usize, (i / np / np / nd) as usize);
            let mut s = MadSkin::default();
            for q in &parts { set_part(&mut s, *q, &defs[if *q == p || *q == p2 { d } else { o }], *q); }
            s.bullet.set_char('•');
            for dest in DESTS { for w in WEIGHTS {
                let mut b = s.clone();
                guard(|| b.blend_with(dest, w))?;
                b.scrollbar = s.scrollbar.clone();
                let want = map_styles(&s, &|p, cs| if p == 8 || p == 9 { cs.clone() } else {
                    let mut r = cs.clone();
                    for (old, fg) in [(cs.get_fg(), true), (cs.get_bg(), false)] { if let Some(c) = blended(old, dest, w) { if fg { r.set_fg(c) } else { r.set_bg(c) } } }
                    r
                });
                let e = diff(&b, &want);
                ensure!(e.is_none(), "blend-parts", "parts {p}, {p2} with {:?}, others with {:?}, blended with {dest:?} at {w}: {}", defs[d], defs[o], e.unwrap());
            } }
            for op in [0, 1, 2, 3, 5] {
                let mut b = s.clone();
                guard(|| match op { 0 => b.set_fg(c), 1 => b.set_bg(c), 2 => b.set_headers_fg(c), 3 => b.set_headers_bg(c), _ => b.set_global_bg(c) })?;
                let what = format!("operation {op} on parts {p}, {p2} with {:?}, others with {:?}", defs[d], defs[o]);
                let set = |cs: &CompoundStyle| { let mut r = cs.clone(); if op % 2 == 0 { r.set_fg(c) } else { r.set_bg(c) } r };
                // the parts which must be changed, those which may be
                let must = |p: usize| p >= 15 || op < 2 && matches!(p, 0 | 1 | 2 | 4 | 5 | 6 | 7 | 10) || op == 1 && matches!(p, 8 | 9 | 12) || op == 5 && matches!(p, 7 | 10);
                let may = |p: usize| must(p) || (op < 2 || op == 5) && !matches!(p, 3 | 11);
                let all = map_styles(&s, &|p, cs| if may(p) { set(cs) } else { cs.clone() });
                let mixed = map_styles(&b, &|p, cs| {
                    if must(p) || !may(p) { return cs.clone(); }
                    // either unchanged or changed
                    let old = std::cell::Cell::new(None);
                    map_styles(&s, &|q, cs| { if q == p { old.set(Some(cs.clone())); } cs.clone() });
                    let old = old.take().unwrap();
                    if same_style(cs, &old) { set(cs) } else { cs.clone() }
                });
                let e = diff(&mixed, &all);
                ensure!(e.is_none(), "setter-parts", "{what}: {}", e.unwrap());
            }
            l.trace(h64(&(p, p2, d, o)));
            l.nontrivial();
            Ok(())
        },
    });
}
