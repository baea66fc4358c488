//! Shortening and padding composites (C07), cropping strings and writers (C08)
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::spec::*;
use crate::ensure;
use serde_json::json;
use termimad::minimad::*;
use termimad::*;

pub fn run(ctx: &Ctx) {
    match ctx.property.as_str() {
        "C07" => { fit_family(ctx); refit_family(ctx); }
        _ => { strfit_family(ctx); crop_bfs(ctx); spacing_family(ctx); long_families(ctx); }
    }
}

const FIT_KINDS: &[&str] = &["", "> ", "* ", "  * ", "# ", "    "];
fn composite(md: &str, empties: usize) -> Option<Composite<'_>> {
    match parse_text(md, minimad::Options::default()).lines.pop() {
        Some(Line::Normal(mut c)) => {
            // empty compounds are what a template with an empty argument gives
            if empties & 1 != 0 { c.compounds.insert(0, Compound::raw_str("")); }
            if empties & 2 != 0 { c.compounds.push(Compound::raw_str("")); }
            Some(c)
        }
        _ => None,
    }
}
pub fn glyphs(s: &str) -> Result<Vec<Glyph>, Viol> {
    let mut r = rows(s).or_else(|e| viol("stream", e))?;
    ensure!(r.len() <= 1, "stream", "several rows: {s:?}");
    Ok(r.pop().map(|r| r.g).unwrap_or_default())
}
fn width(g: &[Glyph]) -> usize { g.iter().map(|g| g.w).sum() }

/// o is s where some ranges (at least one) are replaced by an ellipsis
fn elided(o: &[Glyph], s: &[(char, Sty)], ell: Option<Sty>) -> bool {
    // reach[j]: o[..i] can show s[..j]
    let mut cur = vec![false; s.len() + 1];
    cur[0] = true;
    for g in o {
        let mut next = vec![false; s.len() + 1];
        for j in 0..=s.len() {
            if !cur[j] { continue; }
            if j < s.len() && g.ch == s[j].0 && ell.map_or(true, |_| g.st == s[j].1) { next[j + 1] = true; }
            if g.ch == '…' && ell.map_or(true, |e| g.st == e) { for x in next.iter_mut().skip(j + 1) { *x = true; } }
        }
        cur = next;
    }
    cur[s.len()]
}

fn check_fit(c: &Composite, skin: &MadSkin, w: usize, align: Alignment, fill: bool, l: &mut Local) -> Res {
    let ls = line_style(skin, c.style);
    let src = content(skin, ls, c);
    let s: Vec<(char, Sty)> = src.iter().map(|c| (c.ch, c.st)).collect();
    let (prefix, _) = prefixes(skin, c.style);
    let natural = src.iter().map(|c| c.w).sum::<usize>() + pw(&prefix);
    let out = guard(|| {
        if fill {
            let mut v = Vec::new();
            skin.write_composite_fill(&mut v, c.clone(), w, align).unwrap();
            String::from_utf8(v).unwrap()
        } else {
            let mut fc = FmtComposite::from(c.clone(), skin);
            Fitter::for_align(align).fit(&mut fc, w, skin);
            let s = FmtInline { skin, composite: fc.clone() }.to_string();
            // the cached width must be right
            let r = skin.visible_composite_length(fc.kind, &fc.compounds);
            assert!(w < 2 || r == fc.visible_length, "cached width {} instead of {r}", fc.visible_length);
            s
        }
    })?;
    if !fill && c.style == CompositeStyle::Paragraph {
        // a composite made compound by compound is the same one
        if let Some(first) = c.compounds.first() {
            let o = guard(|| {
                let mut fc = FmtComposite::from_compound(first.clone());
                for x in &c.compounds[1..] { fc.add_compound(x.clone()); }
                Fitter::for_align(align).fit(&mut fc, w, skin);
                FmtInline { skin, composite: fc }.to_string()
            })?;
            ensure!(o == out, "compound-by-compound", "made compound by compound: {o:?} instead of {out:?}");
        }
    }
    l.trace(h64(&(&out, w)));
    let mut g = glyphs(&out)?;
    let total = width(&g);
    // the padding
    let min_w = pw(&prefix) + 1;
    ensure!(total <= w || !prefix.is_empty() && total <= min_w || natural <= w, "too-wide", "takes {total} columns instead of at most {w}: {out:?}");
    if fill {
        ensure!(total == w || !prefix.is_empty() && w < min_w, "fill", "takes {total} columns instead of {w}: {out:?}");
    }
    // removing padding: try all
    let inner = sty_of(&ls.compound_style);
    let ell = sty_of(&skin.ellipsis);
    let max_l = if fill { g.iter().take_while(|g| g.ch == ' ').count() } else { 0 };
    let max_r = if fill { g.iter().rev().take_while(|g| g.ch == ' ').count() } else { 0 };
    let mut why = String::from("not the content");
    for lp in 0..=max_l { for rp in 0..=max_r {
        if lp + rp > g.len() { continue; }
        let (a, rest) = g.split_at(lp);
        let (mid, b) = rest.split_at(rest.len() - rp);
        if a.iter().chain(b).any(|g| g.st != inner) { continue; }
        let mw = width(mid);
        if fill && pads(align, mw, w.max(mw)) != (lp, rp) { continue; }
        if mid.len() < prefix.len() || mid.iter().zip(&prefix).any(|(g, p)| (g.ch, g.st) != *p) { continue; }
        let o = &mid[prefix.len()..];
        if natural <= w {
            if o.len() == s.len() && o.iter().zip(&s).all(|(g, s)| (g.ch, g.st) == *s) { return Ok(()); }
            why = "isn't kept intact while it fits".into();
            continue;
        }
        l.nontrivial();
        if w == 0 { if o.is_empty() { return Ok(()); } continue; }
        if !prefix.is_empty() && w < min_w && (o.is_empty() || o.len() == 1 && o[0].ch == '…') { return Ok(()); }
        if w == 1 { if o.len() == 1 && o[0].ch == '…' { return Ok(()); } continue; }
        if !elided(o, &s, Some(ell)) { continue; }
        let k = o.iter().filter(|g| g.ch == '…').count();
        let ok = match align {
            Alignment::Left => k == 1 && o.last().unwrap().ch == '…',
            Alignment::Right => k == 1 && o[0].ch == '…',
            Alignment::Center => o.last().unwrap().ch == '…' && (k == 1 || k == 2 && o[0].ch == '…'),
            Alignment::Unspecified => true,
        };
        if !ok { why = format!("ellipsis at the wrong place for alignment {align:?}"); continue; }
        // as much as possible is kept
        let narrow = src.iter().all(|c| c.w == 1);
        if narrow && mw != w && w >= min_w { why = format!("only {mw} columns used on {w}"); continue; }
        return Ok(());
    } }
    g.truncate(60);
    viol("fit", format!("{} is shown as {:?} when fitting width {w} with align {align:?}: {why}", s.iter().map(|x| x.0).collect::<String>(), g.iter().map(|g| g.ch).collect::<String>()))
}

fn fit_family(ctx: &Ctx) {
    let mut sk = vec![("full".to_string(), full_skin()), ("nostyle".to_string(), MadSkin::no_style())];
    sk.truncate(ctx.by(1, 2));
    let seqs = Seqs { a: INLINE.len() as u64, min: 0, max: ctx.by(4, 5) };
    let nk = FIT_KINDS.len();
    let empt: &[usize] = if ctx.quick() { &[0, 3] } else { &[0, 1, 2, 3] };
    let maxw = ctx.by(10, 15);
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take(nk);
        let e = empt[m.take(empt.len())];
        let toks: Vec<T> = seqs.get(m.0).into_iter().map(|x| INLINE[x]).collect();
        (format!("{}{}", FIT_KINDS[k], build(&toks)), e)
    };
    ctx.family(&Fam {
        name: "fit".into(),
        bounds: format!("composites of {nk} kinds made of all sequences of <= {} tokens of {:?}, with or without empty spans at the ends, fit and fill, widths 0..={maxw}, 4 alignments", seqs.max, INLINE),
        n: nk as u64 * empt.len() as u64 * seqs.len(),
        d: |i| json!({"markdown": doc(i).0, "empty spans": doc(i).1}),
        c: |i, l: &mut Local| {
            let (md, e) = doc(i);
            let Some(c) = composite(&md, e) else { return Ok(()) };
            for (_, skin) in &sk { for w in 0..=maxw { for al in ALIGNS { for fill in [false, true] {
                check_fit(&c, skin, w, al, fill, l).map_err(|v| Viol { msg: format!("{md:?} empties {e} width {w} align {al:?} fill {fill}: {}", v.msg), ..v })?;
            } } } }
            Ok(())
        },
    });
    // longer contents: tokens and spans long enough for the internal ellision
    let words: &[&str] = &["abcdefgh", " ", "**ijk lmnop qrs**", "漢字仮名交文", "t", "*uvw*", "`xy zA BCD`", "e\u{301}\u{301}\u{301}\u{301}f"];
    let seqs = Seqs { a: words.len() as u64, min: 1, max: ctx.by(3, 4) };
    let doc = |i: u64| seqs.get(i).into_iter().map(|x| words[x]).collect::<String>();
    let skin = full_skin();
    ctx.family(&Fam {
        name: "fit-long".into(),
        bounds: format!("all sequences of <= {} parts over {words:?}, all widths up to 40, 4 alignments, fit and fill", seqs.max),
        n: seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| {
            let md = doc(i);
            let c = Composite::from_inline(&md);
            for w in 0..=40 { for al in ALIGNS { for fill in [false, true] {
                check_fit(&c, &skin, w, al, fill, l).map_err(|v| Viol { msg: format!("{md:?} width {w} align {al:?} fill {fill}: {}", v.msg), ..v })?;
            } } }
            Ok(())
        },
    });
}

/// a composite which is fitted or filled several times, with various widths
fn refit_family(ctx: &Ctx) {
    let words: &[&str] = &["abcdefgh", " ", "**ijk lm**", "漢字", "`xy z`"];
    let seqs = Seqs { a: words.len() as u64, min: 1, max: 3 };
    // 0: fit, 1: fill, 2: extend
    let ops: Vec<(u8, usize, Alignment)> = [0, 1, 2].into_iter().flat_map(|f| [2usize, 3, 5, 8, 12, 16].into_iter().flat_map(move |w| ALIGNS.into_iter().map(move |a| (f, w, a)))).collect();
    let oseqs = Seqs { a: ops.len() as u64, min: 2, max: ctx.by(2, 3) };
    let skin = full_skin();
    let case = |i: u64| {
        let mut m = Mixed(i);
        let md: String = seqs.get(m.take64(seqs.len())).into_iter().map(|x| words[x]).collect();
        (md, oseqs.get(m.0).into_iter().map(|o| ops[o]).collect::<Vec<_>>())
    };
    ctx.family(&Fam {
        name: "refit".into(),
        bounds: format!("all composites of <= 3 parts over {words:?}, all sequences of 2..={} operations (fit, fill or extend, widths 2,3,5,8,12,16, 4 alignments)", oseqs.max),
        n: seqs.len() * oseqs.len(),
        d: |i| json!({"case": format!("{:?}", case(i))}),
        c: |i, l: &mut Local| {
            let (md, ops) = case(i);
            let mut fc = FmtComposite::from(Composite::from_inline(&md), &skin);
            let mut s: Vec<(char, Sty)> = glyphs(&FmtInline { skin: &skin, composite: fc.clone() }.to_string())?.iter().map(|g| (g.ch, g.st)).collect();
            let mut filled: Option<usize> = None;
            let mut total = s.iter().map(|x| cw(x.0)).sum::<usize>();
            for (k, (op, w, al)) in ops.iter().enumerate() {
                let prev_filled = filled;
                guard(|| match op { 0 => fc.fit_width(*w, *al, &skin), 1 => fc.fill_width(*w, *al, &skin), _ => fc.extend_width(*w, *al) })?;
                if *op > 0 { filled = Some(*w); }
                let out = FmtInline { skin: &skin, composite: fc.clone() }.to_string();
                l.trace(h64(&out));
                let g = glyphs(&out)?;
                let tot = width(&g);
                if *op == 1 { ensure!(tot == *w, "refill", "after {:?}, takes {tot} columns instead of {w}: {out:?}", &ops[..=k]); }
                else if *op == 2 { ensure!(tot == total.max(*w), "extend", "after {:?}, takes {tot} columns instead of {}: {out:?}", &ops[..=k], total.max(*w)); }
                else if prev_filled.is_none() { ensure!(tot <= *w, "refit", "after {:?}, takes {tot} columns instead of at most {w}: {out:?}", &ops[..=k]); }
                let (lp, rp) = fc.completions();
                if *op > 0 { ensure!((lp, rp) == pads(*al, tot - lp - rp, tot), "refill-align", "after {:?}, {lp} and {rp} spaces around: {out:?}", &ops[..=k]); }
                total = tot;
                let o = &g[lp..g.len() - rp];
                ensure!(elided(o, &s, None), "refit-content", "after {:?}: {out:?} isn't a shortening of {:?}", &ops[..=k], s.iter().map(|x| x.0).collect::<String>());
                s = o.iter().map(|g| (g.ch, g.st)).collect();
            }
            Ok(())
        },
    });
}

//------------------------------------------------------------------ C08

const CH: &[char] = &['a', 'é', '漢', '\t', '\u{301}', ' ', 'b', '字'];
fn cols(c: char) -> usize { if c == '\t' { 2 } else { cw(c) } }
fn exp(c: char) -> String { if c == '\t' { "  ".into() } else { c.to_string() } }
/// longest fitting prefix: (bytes, columns, shown string)
fn ref_fit(s: &str, max: usize) -> (usize, usize, String) {
    let (mut b, mut w, mut t) = (0, 0, String::new());
    for c in s.chars() {
        if w + cols(c) > max { break; }
        w += cols(c); b += c.len_utf8(); t.push_str(&exp(c));
    }
    (b, w, t)
}
fn strfit_family(ctx: &Ctx) {
    let seqs = Seqs { a: CH.len() as u64, min: 0, max: ctx.by(7, 8) };
    let doc = |i: u64| seqs.get(i).into_iter().map(|x| CH[x]).collect::<String>();
    ctx.family(&Fam {
        name: "strfit".into(),
        bounds: format!("all strings of <= {} chars over {CH:?}, widths 0..=9", seqs.max),
        n: seqs.len(),
        d: |i| json!({"string": doc(i)}),
        c: |i, l: &mut Local| {
            let s = doc(i);
            for max in 0..=9usize {
                let (b, w, t) = ref_fit(&s, max);
                let (rc, rs, rw) = guard(|| (StrFit::count_fitting(&s, max), StrFit::make_string(&s, max), StrFit::make_cow(&s, max).0.to_string()))?;
                l.trace(h64(&(&rs, max)));
                if w < sw(&s) { l.nontrivial(); }
                ensure!(rc == (b, w), "count", "count_fitting({s:?},{max}) = {rc:?} instead of {:?}", (b, w));
                ensure!(rs == (t.clone(), w), "string", "make_string({s:?},{max}) = {rs:?} instead of {:?}", (&t, w));
                ensure!(rw == t, "cow", "make_cow({s:?},{max}) = {rw:?} instead of {t:?}");
            }
            Ok(())
        },
    });
}

#[derive(Debug, Clone, PartialEq)]
enum Op { Str(bool, &'static str), Char(bool, char), G(bool, &'static str), Rep(bool, usize), Fill(u8) }
struct Crop { depth: usize }
#[derive(Clone)]
struct CropState { ops: Vec<Op>, limit: usize, left: usize, text: String }
static FILL_X: std::sync::LazyLock<Filling> = std::sync::LazyLock::new(|| Filling::from_char('x'));
static FILL_E: std::sync::LazyLock<Filling> = std::sync::LazyLock::new(|| Filling::from_char('═'));
fn crop_ops() -> Vec<Op> {
    let mut v = Vec::new();
    for st in [true, false] {
        for s in ["", "a", "bcd", "漢", "e漢f", "\t", "g\th", "i\u{301}", "\u{301}"] { v.push(Op::Str(st, s)); }
        for c in ['j', '漢', '\t', '\u{301}'] { v.push(Op::Char(st, c)); }
        for g in ["", "k", "lmn", "opqrst"] { v.push(Op::G(st, g)); }
        for n in [0, 1, 3] { v.push(Op::Rep(st, n)); }
    }
    for f in 0..3 { v.push(Op::Fill(f)); }
    v
}
fn apply(cwr: &mut CropWriter<Vec<u8>>, op: &Op, cs: &CompoundStyle) {
    match op {
        Op::Str(true, s) => cwr.queue_str(cs, s),
        Op::Str(_, s) => cwr.queue_unstyled_str(s),
        Op::Char(true, c) => cwr.queue_char(cs, *c),
        Op::Char(_, c) => cwr.queue_unstyled_char(*c),
        Op::G(true, s) => cwr.queue_g_string(cs, s.to_string()),
        Op::G(_, s) => cwr.queue_unstyled_g_string(s.to_string()),
        Op::Rep(true, n) => cwr.repeat(cs, &FILL_X, *n),
        Op::Rep(_, n) => cwr.repeat_unstyled(&FILL_E, *n),
        Op::Fill(0) => cwr.fill(cs, &FILL_X),
        Op::Fill(1) => cwr.fill_unstyled(&FILL_E),
        Op::Fill(_) => cwr.fill_with_space(cs),
    }.unwrap()
}
/// what's written by one operation when `left` columns remain: (text, columns, style)
fn ref_op(op: &Op, left: usize) -> (String, usize, bool) {
    match op {
        Op::Str(st, s) | Op::G(st, s) => { let (_, w, t) = ref_fit(s, left); if left == 0 { (String::new(), 0, *st) } else { (t, w, *st) } }
        Op::Char(st, c) => if cols(*c) <= left { (exp(*c), cols(*c), *st) } else { (String::new(), 0, *st) },
        Op::Rep(st, n) => { let n = (*n).min(left); ((if *st { "x" } else { "═" }).repeat(n), n, *st) }
        Op::Fill(0) => ("x".repeat(left), left, true),
        Op::Fill(1) => ("═".repeat(left), left, false),
        Op::Fill(_) => (" ".repeat(left), left, true),
    }
}
impl Model for Crop {
    type S = CropState;
    type Op = Op;
    fn name(&self) -> String { "crop-writer".into() }
    fn bounds(&self) -> String { format!("limits 0..=7, all sequences of <= {} operations among {}", self.depth, crop_ops().len()) }
    fn max_depth(&self) -> usize { self.depth }
    fn inits(&self) -> Vec<(String, CropState)> { (0..=7).map(|n| (format!("limit {n}"), CropState { ops: vec![], limit: n, left: n, text: String::new() })).collect() }
    fn ops(&self, _: &CropState) -> Vec<Op> { crop_ops() }
    fn key(&self, s: &CropState) -> Option<u128> { Some(key128(&(s.limit, s.left, &s.text, s.ops.len()))) }
    fn step(&self, s: &CropState, op: &Op, l: &mut Local) -> Result<CropState, Viol> {
        let cs = full_skin().bold;
        let mut n = s.clone();
        n.ops.push(op.clone());
        let (out, before, left) = guard(|| {
            let mut v = Vec::new();
            let mut cwr = CropWriter::new(&mut v, s.limit);
            for o in &n.ops[..n.ops.len() - 1] { apply(&mut cwr, o, &cs); }
            let before = cwr.w.len();
            apply(&mut cwr, op, &cs);
            let left = cwr.allowed;
            assert!(cwr.is_full() == (left == 0));
            (v, before, left)
        })?;
        let text = String::from_utf8(out).or_else(|_| viol("utf8", "not utf8"))?;
        l.trace(h64(&(&text, s.limit)));
        let (mut t, mut w, styled) = ref_op(op, s.left);
        // a tabulation may be cut
        if matches!(op, Op::Char(_, '\t')) && s.left == 1 && text.len() > before { t = " ".into(); w = 1; }
        n.left = s.left - w;
        n.text.push_str(&t);
        let g = glyphs(&text)?;
        let shown: String = g.iter().map(|g| g.ch).collect();
        ensure!(width(&g) <= s.limit, "overflow", "limit {}: {:?} writes {} columns: {shown:?}", s.limit, n.ops, width(&g));
        let last = glyphs(&text[before..])?;
        let last_s: String = last.iter().map(|g| g.ch).collect();
        // combining chars may be written or not when there's no column left
        let zw = |s: &str| s.chars().filter(|c| cw(*c) > 0).collect::<String>();
        ensure!(last_s == t || (s.left == 0 && zw(&last_s) == zw(&t)), "crop", "limit {}, {} columns left: {op:?} writes {last_s:?} instead of {t:?}", s.limit, s.left);
        let st = if styled { sty_of(&cs) } else { Sty::default() };
        ensure!(last.iter().all(|g| g.st == st), "crop-style", "{op:?} writes {:?}", &text[before..]);
        ensure!(left == n.left, "allowed", "limit {}: after {:?}, {left} columns allowed instead of {}", s.limit, n.ops, n.left);
        if w < s.left { l.nontrivial(); }
        Ok(n)
    }
}
fn crop_bfs(ctx: &Ctx) { ctx.bfs(&Crop { depth: ctx.by(4, 5) }); }

/// strings written in a spacing, and fillings of any length
fn spacing_family(ctx: &Ctx) {
    let seqs = Seqs { a: 4, min: 0, max: 6 };
    let doc = |i: u64| seqs.get(i).into_iter().map(|x| ['a', 'é', ' ', '漢'][x]).collect::<String>();
    ctx.family(&Fam {
        name: "spacing".into(),
        bounds: "all strings of <= 6 chars (also wide ones), widths 0..=9, 4 alignments".into(),
        n: seqs.len(),
        d: |i| json!({"string": doc(i)}),
        c: |i, l: &mut Local| {
            let s = doc(i);
            let cs = full_skin().bold;
            for w in 0..=9usize { for al in ALIGNS {
                let mut v = Vec::new();
                guard(|| Spacing { width: w, align: al }.write_str(&mut v, &s, &cs).unwrap())?;
                let out = String::from_utf8(v).unwrap();
                l.trace(h64(&out));
                let g = glyphs(&out)?;
                let mut kept = String::new();
                let mut n = 0;
                for c in s.chars() { if n + cw(c) > w { break; } n += cw(c); kept.push(c); }
                let (lp, rp) = if kept.len() < s.len() { (0, w - n) } else { pads(al, n, w) };
                let want = format!("{}{kept}{}", " ".repeat(lp), " ".repeat(rp));
                ensure!(g.iter().map(|g| g.ch).collect::<String>() == want, "spacing", "{s:?} in {w} {al:?}: {out:?}");
                ensure!(g.iter().all(|g| g.st == sty_of(&cs)), "spacing-style", "{s:?} in {w} {al:?}: {out:?}");
            } }
            Ok(())
        },
    });
    let chars = ['x', '═', '░'];
    ctx.family(&Fam {
        name: "filling".into(),
        bounds: "fillings of 3 chars, styled or not, and fill_bg, all lengths 0..=4100".into(),
        n: 4101,
        d: |i| json!({"length": i}),
        c: |i, l: &mut Local| {
            let cs = full_skin().bold;
            let mut v = Vec::new();
            guard(|| fill_bg(&mut v, i as usize, termimad::crossterm::style::Color::AnsiValue(9)).unwrap())?;
            let out = String::from_utf8(v).or_else(|_| viol("utf8", "not utf8"))?;
            // (fill_bg leaves the background set)
            let g = glyphs(&format!("{out}\x1b[0m"))?;
            let want = Sty { bg: col_of(termimad::crossterm::style::Color::AnsiValue(9)), ..Sty::default() };
            ensure!(g.len() == i as usize && g.iter().all(|g| g.ch == ' ' && g.st == want), "fill-bg", "{} chars written instead of {i} blanks", g.len());
            for c in chars { for styled in [false, true] {
                let f = Filling::from_char(c);
                let mut v = Vec::new();
                guard(|| if styled { f.queue_styled(&mut v, &cs, i as usize).unwrap() } else { f.queue_unstyled(&mut v, i as usize).unwrap() })?;
                let out = String::from_utf8(v).or_else(|_| viol("utf8", "not utf8"))?;
                l.trace(h64(&(i, c, styled)));
                let g = glyphs(&out)?;
                let st = if styled { sty_of(&cs) } else { Sty::default() };
                ensure!(g.len() == i as usize && g.iter().all(|g| g.ch == c && g.st == st), "filling", "{} chars written instead of {i}", g.len());
            } }
            Ok(())
        },
    });
}

/// very long strings, limits and repetitions; backspaces
fn long_families(ctx: &Ctx) {
    const N: [usize; 22] = [127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 998, 999, 1000, 1001, 1002, 2000, 2001, 65534, 65535, 65536, 65537];
    let n = N.len() as u64;
    const CS: [char; 4] = ['a', 'é', '漢', '\t'];
    ctx.family(&Fam {
        name: "strfit-long".into(),
        bounds: format!("strings of n times one of {CS:?}, preceded or not by an a, in m columns, n and m in {N:?}, or m unlimited"),
        n: n * n * 8,
        d: |i| json!({"char": CS[(i % 4) as usize], "preceded": i / 4 % 2, "length": N[(i / 8 % n) as usize], "columns": N[(i / 8 / n) as usize]}),
        c: |i, l: &mut Local| {
            let (c, pre, len, max) = (CS[(i % 4) as usize], i / 4 % 2 == 1, N[(i / 8 % n) as usize], N[(i / 8 / n) as usize]);
            let s = format!("{}{}", if pre { "a" } else { "" }, c.to_string().repeat(len));
            for max in if len == max { vec![max, 0, 1, 2, 3, usize::MAX / 2, usize::MAX - 1, usize::MAX] } else { vec![max] } {
                let (b, w, t) = ref_fit(&s, max);
                let (rc, rs, rw) = guard(|| (StrFit::count_fitting(&s, max), StrFit::make_string(&s, max), StrFit::make_cow(&s, max).0.to_string()))?;
                l.trace(h64(&(c, len, max, rc)));
                ensure!(rc == (b, w), "count", "{len} times {c:?} (preceded: {pre}) in {max}: {rc:?} instead of {:?}", (b, w));
                ensure!(rs.0 == t && rs.1 == w && rw == t, "string", "{len} times {c:?} (preceded: {pre}) in {max}: {} chars instead of {}", rs.0.chars().count(), t.chars().count());
                if c != '\t' && max <= 70000 {
                    for al in ALIGNS {
                        let mut v = Vec::new();
                        let cs = CompoundStyle::default();
                        guard(|| Spacing { width: max, align: al }.write_str(&mut v, &s, &cs).unwrap())?;
                        let out = String::from_utf8(v).or_else(|_| viol("utf8", "not utf8"))?;
                        let (lp, rp) = if b < s.len() { (0, max - w) } else { pads(al, w, max) };
                        ensure!(out == format!("{}{t}{}", " ".repeat(lp), " ".repeat(rp)), "spacing", "{len} times {c:?} (preceded: {pre}) in {max} {al:?}: {} chars", out.chars().count());
                    }
                }
            }
            Ok(())
        },
    });
    // operations on a crop writer: (kind, styled, length)
    let ops: Vec<(u8, bool, usize)> = (0..5u8).flat_map(|k| [false, true].into_iter().flat_map(move |st| [1usize, 255, 256, 1000, 65535, 65536].into_iter().map(move |n| (k, st, n)))).chain([(4, true, usize::MAX), (4, false, usize::MAX), (5, true, 0), (5, false, 0), (6, true, 0)]).collect();
    let seqs = Seqs { a: ops.len() as u64, min: 1, max: 2 };
    ctx.family(&Fam {
        name: "crop-long".into(),
        bounds: format!("limits in {N:?}, all sequences of <= 2 operations among {}: narrow, wide, gentle strings, tabulations, repetitions of 1, 255, 256, 1000, 65535, 65536 (or the biggest integer), fillings", ops.len()),
        n: seqs.len() * n,
        d: |i| json!({"limit": N[(i % n) as usize], "operations": format!("{:?}", seqs.get(i / n).into_iter().map(|k| ops[k]).collect::<Vec<_>>())}),
        c: |i, l: &mut Local| {
            let limit = N[(i % n) as usize];
            let cs = CompoundStyle::default();
            let mut v = Vec::new();
            let mut want = String::new();
            let mut left = limit;
            let mut cwr = CropWriter::new(&mut v, limit);
            for k in seqs.get(i / n) {
                let (kind, st, len) = ops[k];
                let text = |c: &str| c.repeat(len);
                guard(|| match (kind, st) {
                    (0, true) => cwr.queue_str(&cs, &text("a")),
                    (0, _) => cwr.queue_unstyled_str(&text("a")),
                    (1, true) => cwr.queue_str(&cs, &text("漢")),
                    (1, _) => cwr.queue_unstyled_str(&text("漢")),
                    (2, true) => cwr.queue_g_string(&cs, text("é")),
                    (2, _) => cwr.queue_unstyled_g_string(text("é")),
                    (3, true) => cwr.queue_str(&cs, &text("\t")),
                    (3, _) => cwr.queue_unstyled_str(&text("\t")),
                    (4, true) => cwr.repeat(&cs, &FILL_X, len),
                    (4, _) => cwr.repeat_unstyled(&FILL_E, len),
                    (5, true) => cwr.fill(&cs, &FILL_X),
                    (5, _) => cwr.fill_unstyled(&FILL_E),
                    _ => cwr.fill_with_space(&cs),
                }.unwrap())?;
                let (t, unit) = match (kind, st) { (0, _) => ("a", 1), (1, _) => ("漢", 2), (2, _) => ("é", 1), (3, _) => ("  ", 2), (4 | 5, true) => ("x", 1), (4 | 5, _) => ("═", 1), _ => (" ", 1) };
                let m = if kind >= 5 { left } else { len.min(left / unit) };
                want.push_str(&t.repeat(m));
                left -= m * unit;
                ensure!(cwr.allowed == left && cwr.is_full() == (left == 0), "allowed", "limit {limit}: {} columns left instead of {left}", cwr.allowed);
            }
            let out = String::from_utf8(v).or_else(|_| viol("utf8", "not utf8"))?;
            l.trace(h64(&(limit, out.len())));
            ensure!(out == want, "crop", "limit {limit}: {} chars are written instead of {}", out.chars().count(), want.chars().count());
            Ok(())
        },
    });
    const BS: &[char] = &['a', '漢', '\u{8}', '\t', 'é'];
    let seqs = Seqs { a: BS.len() as u64, min: 0, max: ctx.by(7, 8) };
    let doc = |i: u64| seqs.get(i).into_iter().map(|x| BS[x]).collect::<String>();
    ctx.family(&Fam {
        name: "strfit-backspaces".into(),
        bounds: format!("all strings of <= {} chars over {BS:?}, widths 0..=6", seqs.max),
        n: seqs.len(),
        d: |i| json!({"string": doc(i)}),
        c: |i, l: &mut Local| {
            let s = doc(i);
            for max in 0..=6i32 {
                let (mut b, mut w) = (0, 0);
                for c in s.chars() {
                    let d = if c == '\u{8}' { -1 } else { cols(c) as i32 };
                    if (w + d).max(0) > max { break; }
                    w += d; b += c.len_utf8();
                }
                let t: String = s[..b].replace('\t', "  ");
                let w = w.max(0) as usize;
                let m = max as usize;
                let (rc, rs, rw) = guard(|| (StrFit::count_fitting(&s, m), StrFit::make_string(&s, m), StrFit::make_cow(&s, m)))?;
                l.trace(h64(&(&rs, max)));
                ensure!(rc == (b, w), "count", "count_fitting({s:?},{max}) = {rc:?} instead of {:?}", (b, w));
                ensure!(rs == (t.clone(), w) && (rw.0.to_string(), rw.1) == rs, "string", "make_string({s:?},{max}) = {rs:?}, make_cow {rw:?} instead of {:?}", (&t, w));
            }
            Ok(())
        },
    });
}
