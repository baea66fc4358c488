//! Rendering of markdown texts: wrapping, contents, styles, geometry, tables, code blocks.
use crate::docs::*;
use crate::emu::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use serde_json::json;
use termimad::*;

pub fn handles(p: &str) -> bool { matches!(p, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "ALL") }

pub fn want_of(p: &str) -> Want {
    match p {
        "C01" => Want { width: true, ..Default::default() },
        "C02" => Want { content: true, ..Default::default() },
        "C03" => Want { table: true, ..Default::default() },
        "C04" => Want { cells: true, ..Default::default() },
        "C05" => Want { style: true, ..Default::default() },
        "C06" => Want { geometry: true, code: true, ..Default::default() },
        _ => Want::ALL,
    }
}

/// render and compare
pub fn check_md(md: &str, skin: &MadSkin, width: Option<usize>, want: Want, l: &mut Local) -> Res {
    let text = minimad::parse_text(md, minimad::Options::default());
    let out = guard(|| FmtText::from(skin, md, width).to_string())?;
    if want.style && *skin == MadSkin::no_style() { crate::ensure!(!out.contains('\u{1b}'), "no-style", "escape sequence in the output of a skin without style: {out:?}"); }
    let rows = rows(&out).or_else(|e| viol("stream", e))?;
    l.trace(h64(&out));
    if ambiguous(&text) {
        if let (true, Some(w)) = (want.width, width) { if w >= 8 { for r in &rows { crate::ensure!(r.width <= w, "width", "row {:?} wider than {w}", r.text()); } } }
        return Ok(());
    }
    l.nontrivial();
    check_text(&text, skin, Geo::display(width), &rows, want).map_err(|v| Viol { msg: format!("{} -- output {:?}", v.msg, rows.iter().map(|r| r.text()).collect::<Vec<_>>()), ..v })
}

/// a line with only spaces, several of them or some being inline code: which rows of
/// spaces are theirs can't be told from padding
pub fn ambiguous(text: &minimad::Text) -> bool {
    text.lines.iter().any(|l| match l {
        minimad::Line::Normal(c) => (c.compounds.iter().any(|c| c.code) || c.compounds.iter().map(|c| c.src.len()).sum::<usize>() > 1)
            && c.compounds.iter().all(|c| c.src.chars().all(|c| c.is_whitespace()))
            // the last blanks may be dropped, or alone on a last row
            || c.compounds.len() > 1 && c.compounds.last().map_or(false, |c| c.src.chars().all(|c| c.is_whitespace())),
        _ => false,
    })
}

pub fn run(ctx: &Ctx) {
    let want = want_of(&ctx.property);
    let p = ctx.property.as_str();
    let all = p == "ALL";
    if all || p != "C03" && p != "C04" {
        words_family(ctx, want);
        inline_family(ctx, want);
        spans_family(ctx, want);
        chars_family(ctx, want);
        geometry_family(ctx, want);
    }
    if all || p == "C02" { rewrap_family(ctx); }
    if all || p == "C05" { span_styles_family(ctx, want); }
    docs_family(ctx, want);
    if all || p != "C06" {
        table_cells_family(ctx, want);
        table_lines_family(ctx, want);
        big_tables_family(ctx, want);
    }
    long_family(ctx, want);
}

fn run_case(md: &str, sk: &[(String, MadSkin)], widths: &[Option<usize>], want: Want, l: &mut Local) -> Res {
    for (sn, skin) in sk {
        for w in widths {
            check_md(md, skin, *w, want, l).map_err(|v| Viol { msg: format!("skin {sn}, width {w:?}, markdown {md:?}: {}", v.msg), ..v })?;
        }
    }
    Ok(())
}

/// every width for words of every length
fn words_family(ctx: &Ctx, want: Want) {
    let sk = skins();
    let lens: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 12];
    // what separates two words: blanks, or a change of style without blank
    let gaps: &[(&str, &str)] = &[(" ", ""), ("  ", ""), (" **", "**"), ("`", "`"), ("   ", ""), (" *", "* ")];
    let kinds: Vec<(&str, &str)> = KINDS.iter().take(if ctx.quick() { 7 } else { 12 }).copied().collect();
    let seqs = Seqs { a: (lens.len() * gaps.len()) as u64, min: 1, max: ctx.by(2, 3) };
    let widths: Vec<Option<usize>> = (3..=ctx.by(15, 26)).map(Some).collect();
    let sk = if ctx.quick() { sk.into_iter().take(4).collect() } else { sk };
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take(kinds.len());
        let first = lens[m.take(lens.len())];
        let mut s = kinds[k].1.to_string();
        let mut n = 0usize;
        let mut word = |s: &mut String, len: usize| for _ in 0..len { s.push((b'a' + (n % 26) as u8) as char); n += 1; };
        word(&mut s, first);
        for x in seqs.get(m.0) {
            let g = gaps[x % gaps.len()];
            s.push_str(g.0);
            word(&mut s, lens[x / gaps.len()]);
            s.push_str(g.1);
        }
        s
    };
    ctx.family(&Fam {
        name: "words".into(),
        bounds: format!("{} kinds, 2..={} words with all lengths in {lens:?}, all separations in {gaps:?}, all widths {widths:?}, {} skins", kinds.len(), seqs.max + 1, sk.len()),
        n: kinds.len() as u64 * lens.len() as u64 * seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| run_case(&doc(i), &sk, &widths, want, l),
    });
}

/// every alignment, margin and list mode
fn geometry_family(ctx: &Ctx, want: Want) {
    let contents = ["", "a", "ab cd", "abcdefg", "ab **cd** `ef gh` ij", "漢字 文", "a b c d e f g h i j"];
    let widths: Vec<Option<usize>> = (3..=ctx.by(16, 24)).map(Some).chain([None]).collect();
    let nm = 4usize; // margins 0..=3
    let n = KINDS.len() * contents.len() * 4 * nm * nm * 2 * 2;
    let case = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take(KINDS.len());
        let c = contents[m.take(contents.len())];
        let lm = m.take(nm); let rm = m.take(nm);
        let al = ALIGNS[m.take(4)];
        let mode = [ListItemsIndentationMode::Block, ListItemsIndentationMode::FirstLineOnly][m.take(2)];
        let tail = ["", "\n---\n    x"][m.take(2)];
        let mut skin = full_skin();
        set_geometry(&mut skin, al, lm, rm, mode);
        (format!("{}{c}{tail}", KINDS[k].1), format!("align {al:?} margins {lm},{rm} {mode:?}"), skin)
    };
    ctx.family(&Fam {
        name: "geometry".into(),
        bounds: format!("12 kinds x {} contents x 4 alignments x margins 0..=3 on both sides x 2 list modes x alone or followed by a rule and code, widths {widths:?}", contents.len()),
        n: n as u64,
        d: |i| { let (md, s, _) = case(i); json!({"markdown": md, "skin": s}) },
        c: |i, l: &mut Local| { let (md, s, skin) = case(i); run_case(&md, &[(s, skin)], &widths, want, l) },
    });
}

/// sequences of lines
fn docs_family(ctx: &Ctx, want: Want) {
    let lines: &[&str] = &["aa bb cc dd ee", "    fn x()", "|p q|r|", "* item one two", "|-:|:-|", "", "> quo ted", "    let long = 12;", "# Head er", "---", "|s|tt uu vv|w|", "  * deep er", "```"];
    let sk = skins();
    let widths: Vec<Option<usize>> = [Some(9), Some(6), Some(13), Some(20), Some(4), None].to_vec();
    let seqs = Seqs { a: lines.len() as u64, min: 1, max: ctx.by(4, 5) };
    let doc = |i: u64| seqs.get(i).into_iter().map(|x| lines[x]).collect::<Vec<_>>().join("\n");
    ctx.family(&Fam {
        name: "docs".into(),
        bounds: format!("all documents of <= {} lines over {lines:?}, widths {widths:?}, {} skins", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| run_case(&doc(i), &sk, &widths, want, l),
    });
}

/// all contents and alignments of a table
fn table_cells_family(ctx: &Ctx, want: Want) {
    let cells: &[&str] = &["a", "bb cc dd", "", "`e f` *gh*", "漢字文", "ijklmnopq", "* r s", "`t`*u***v**w"];
    let al = [":-", ":-:", "-:", "---"];
    let widths: Vec<Option<usize>> = (5..=24).map(Some).chain([Some(40), None]).collect();
    let mut sk = skins(); sk.truncate(ctx.by(3, 6));
    let nc = cells.len() as u64;
    let ncols: u64 = ctx.by(2, 3);
    // 2 rows of `ncols` cells, one rule between them
    let n = (nc * nc * 4).pow(ncols as u32);
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let mut rows = [String::new(), String::new(), String::new()];
        for _ in 0..ncols {
            rows[0] += &format!("|{}", cells[m.take(nc as usize)]);
            rows[1] += &format!("|{}", al[m.take(4)]);
            rows[2] += &format!("|{}", cells[m.take(nc as usize)]);
        }
        rows.join("|\n") + "|"
    };
    ctx.family(&Fam {
        name: "table-cells".into(),
        bounds: format!("row, rule, row with {ncols} columns: all cell contents in {cells:?}, all alignments, widths 5..=24, 40 and none, {} skins", sk.len()),
        n,
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| run_case(&doc(i), &sk, &widths, want, l),
    });
}

/// all sequences of table lines, with any number of cells
fn table_lines_family(ctx: &Ctx, want: Want) {
    let lines: &[&str] = &["|a|bb|ccc|", "|-:|:-:|:-|", "|dd ee ff gg|", "|:-:|", "|h|*i j* k `l m`|", "||nop|", "|q|r|s t|u|v|", "|-|-|-|-|:-:|-|", "|wwwwwwwwwwwwwwww|x|", "par"];
    let sk = skins();
    let widths: Vec<Option<usize>> = [5, 6, 8, 9, 11, 12, 13, 14, 17, 20, 21, 25, 28, 40].into_iter().map(Some).chain([None]).collect();
    let seqs = Seqs { a: lines.len() as u64, min: 1, max: ctx.by(4, 5) };
    let doc = |i: u64| seqs.get(i).into_iter().map(|x| lines[x]).collect::<Vec<_>>().join("\n");
    ctx.family(&Fam {
        name: "table-lines".into(),
        bounds: format!("all sequences of <= {} lines over {lines:?}, widths {widths:?}, {} skins", seqs.max, sk.len()),
        n: seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| run_case(&doc(i), &sk, &widths, want, l),
    });
}

/// many columns, many rows, rules between them
fn big_tables_family(ctx: &Ctx, want: Want) {
    let shapes: &[(usize, usize)] = &[(1, 1), (1, 300), (2, 300), (7, 70), (33, 3), (64, 2), (130, 2), (300, 1)];
    let mut sk = skins(); sk.truncate(2);
    const PATTERNS: usize = 5;
    let case = |i: u64| {
        let mut m = Mixed(i);
        let (cols, rows) = shapes[m.take(shapes.len())];
        let p = m.take(PATTERNS);
        let rule_every = [0, 1, 2, 50][m.take(4)];
        let mut md = String::new();
        for r in 0..rows {
            let n = if p == 4 { 1 + (r * 7 + 3) % cols } else { cols };
            for c in 0..n {
                md.push('|');
                match p {
                    0 => md.push((b'a' + ((r + c) % 26) as u8) as char),
                    1 => md += &format!("r{r}c{c}"),
                    2 => if (r + c) % 5 == 0 { md += "some *cell* which is long" } else { md += "x" },
                    3 => md += ["", "漢字 文", "`a b` c", "abcdefgh", "é"][(r * 3 + c) % 5],
                    _ => md += &"y".repeat(1 + (r + c) % 9),
                }
            }
            md += "|\n";
            if rule_every > 0 && r % rule_every == 0 {
                for c in 0..cols { md += ["|:-", "|-:", "|:-:", "|-"][(r + c) % 4]; }
                md += "|\n";
            }
        }
        let widths: Vec<Option<usize>> = [4 * cols + 1, 4 * cols, 4 * cols + 2, 4 * cols + 5, 5 * cols + 3, 9 * cols + 7, 2 * cols + 5, 30 * cols, 40].into_iter().filter(|w| *w >= 5).map(Some).chain([None]).collect();
        (md, widths, format!("{cols} columns, {rows} rows, contents {p}, rules every {rule_every}"))
    };
    ctx.family(&Fam {
        name: "big-tables".into(),
        bounds: format!("tables of (columns, rows) in {shapes:?}, {PATTERNS} patterns of contents, 4 of rules, widths around and below the minimal one, bigger, and none, 2 skins"),
        n: (shapes.len() * PATTERNS * 4) as u64,
        d: |i| json!({"table": case(i).2}),
        c: |i, l: &mut Local| {
            let (md, widths, d) = case(i);
            for (sn, skin) in &sk { for w in &widths {
                check_md(&md, skin, *w, want, l).map_err(|v| Viol { msg: format!("skin {sn}, width {w:?}, {d}: {}", v.msg.chars().take(600).collect::<String>()), ..v })?;
            } }
            Ok(())
        },
    });
}

/// lengths around the internal buffers (fillings are written by chunks)
fn long_family(ctx: &Ctx, want: Want) {
    let lens: Vec<usize> = if ctx.quick() { vec![1, 499, 998, 999, 1000, 1001, 1002, 1999, 2000, 2001] } else { (990..=1010).chain(1990..=2010).chain([1, 2, 255, 256, 257, 499, 500, 501, 3000, 4096]).collect() };
    let widths: Vec<Option<usize>> = if ctx.quick() { [5, 999, 1000, 1001, 1003, 2000, 2001, 2004, 3001].into_iter().map(Some).chain([None]).collect() }
        else { (996..=1006).chain(1996..=2006).chain([5, 40, 3001, 5000]).map(Some).chain([None]).collect() };
    let kinds: &[(&str, &str)] = &[("", ""), ("    x\n    ", ""), ("* ", ""), ("# ", "\n---"), ("|a|b|\n|-:|:-:|\n|", "|c|"), ("|a|\n|-:|\n|", "|")];
    let sk = skins();
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = kinds[m.take(kinds.len())];
        let spaced = m.take(2) == 1;
        let len = lens[m.take(lens.len())];
        let w: String = (0..len).map(|i| if spaced && i % 7 == 6 { ' ' } else { (b'a' + (i % 26) as u8) as char }).collect();
        (format!("{}{}{}", k.0, w, k.1), format!("{:?} then {len} chars (spaced: {spaced})", k.0))
    };
    ctx.family(&Fam {
        name: "long".into(),
        bounds: format!("contents of lengths {lens:?}, in {} kinds of lines, widths {widths:?}, {} skins", kinds.len(), sk.len()),
        n: (kinds.len() * 2 * lens.len()) as u64,
        d: |i| json!({"doc": doc(i).1}),
        c: |i, l: &mut Local| {
            let (md, d) = doc(i);
            for (sn, skin) in &sk { for w in &widths {
                if *w == Some(5) && md.len() > 600 { continue; }
                check_md(&md, skin, *w, want, l).map_err(|v| Viol { msg: format!("skin {sn}, width {w:?}, {d}: {}", v.msg.chars().take(600).collect::<String>()), ..v })?;
            } }
            Ok(())
        },
    });
}

fn inline_family(ctx: &Ctx, want: Want) {
    let sk = skins();
    let seqs = Seqs { a: INLINE.len() as u64, min: 0, max: ctx.by(4, 5) };
    let kinds = KINDS.len() as u64;
    let widths: Vec<Option<usize>> = [Some(8), Some(4), Some(5), Some(10), Some(3), Some(6), Some(7), Some(13), None].to_vec();
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take64(kinds) as usize;
        let toks: Vec<T> = seqs.get(m.0).into_iter().map(|x| INLINE[x]).collect();
        (KINDS[k].0, format!("{}{}", KINDS[k].1, build(&toks)))
    };
    ctx.family(&Fam {
        name: "inline".into(),
        bounds: format!("one line of every kind ({}), content = all sequences of <= {} tokens of {:?}, widths {widths:?}, {} skins", KINDS.len(), seqs.max, INLINE, sk.len()),
        n: kinds * seqs.len(),
        d: |i| { let (k, md) = doc(i); json!({"kind": k, "markdown": md}) },
        c: |i, l: &mut Local| {
            let (_, md) = doc(i);
            run_case(&md, &sk, &widths, want, l)
        },
    });
}

/// several complete spans in one line
fn spans_family(ctx: &Ctx, want: Want) {
    use T::*;
    const TEXTS: &[&[T]] = &[&[W(3)], &[S(1)], &[Wide(2)], &[Raw("-")], &[W(2), S(1), W(1)], &[Wide(3), Comb], &[S(2)], &[S(1), W(6)]];
    const STYLES: &[&str] = &["", "**", "`", "*"];
    let kinds: Vec<(&str, &str)> = [0usize, 1, 3].map(|k| KINDS[k]).to_vec();
    let mut sk = skins(); sk.truncate(ctx.by(2, 3));
    let widths: Vec<Option<usize>> = (3..=10).map(Some).chain([None]).collect();
    let seqs = Seqs { a: (TEXTS.len() * STYLES.len()) as u64, min: 1, max: ctx.by(3, 4) };
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take(kinds.len());
        let mut toks = Vec::new();
        for x in seqs.get(m.0) {
            let st = Raw(STYLES[x % STYLES.len()]);
            toks.push(st);
            toks.extend(TEXTS[x / STYLES.len()]);
            toks.push(st);
        }
        format!("{}{}", kinds[k].1, build(&toks))
    };
    ctx.family(&Fam {
        name: "spans".into(),
        bounds: format!("one line of {} kinds, content = all sequences of <= {} spans with styles {STYLES:?} and texts {TEXTS:?}, widths {widths:?}, {} skins", kinds.len(), seqs.max, sk.len()),
        n: kinds.len() as u64 * seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| run_case(&doc(i), &sk, &widths, want, l),
    });
}

/// lines already wrapped are wrapped again (or lines of a text which wasn't)
fn rewrap_family(ctx: &Ctx) {
    const TOKS: &[T] = &[T::W(1), T::S(1), T::W(4), T::Wide(1), T::S(2), T::Raw("**"), T::W(9), T::Raw("`"), T::Comb];
    let kinds: Vec<(&str, &str)> = KINDS.iter().filter(|k| k.0 != "code").take(6).copied().collect();
    let mut sk = skins();
    sk.retain(|s| s.0 == "full" || s.0 == "nostyle");
    let mut first_only = sk[0].clone();
    first_only.0 = "first-line-only".into();
    first_only.1.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly;
    sk.push(first_only);
    let seqs = Seqs { a: TOKS.len() as u64, min: 1, max: ctx.by(5, 6) };
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take(kinds.len());
        let toks: Vec<T> = seqs.get(m.0).into_iter().map(|x| TOKS[x]).collect();
        format!("{}{}", kinds[k].1, build(&toks))
    };
    let w1s: &[Option<usize>] = &[None, Some(7), Some(9), Some(13)];
    ctx.family(&Fam {
        name: "rewrap".into(),
        bounds: format!("one line of {} kinds, content = all sequences of <= {} tokens of {TOKS:?}, {} skins, wrapped for {w1s:?} then each line wrapped again (hard_wrap_lines) for all widths 6..=12, also too small ones", kinds.len(), seqs.max, sk.len()),
        n: kinds.len() as u64 * seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| {
            let md = doc(i);
            for (sn, skin) in &sk { for w1 in w1s {
                let n = guard(|| skin.text(&md, *w1))?.lines.len();
                for k in 0..n {
                    let line = || skin.text(&md, *w1).lines.swap_remove(k);
                    let one = |lines: Vec<FmtLine<'_>>, w: Option<usize>| -> Result<Vec<Row>, Viol> { rows(&guard(|| FmtText { skin, lines, width: w }.to_string())?).or_else(|e| viol("stream", e)) };
                    let base = one(vec![line()], None)?.swap_remove(0);
                    let flat = |g: &[Glyph]| g.iter().map(|g| (g.ch, g.w, g.st.clone())).collect::<Vec<_>>();
                    let bg = flat(&base.g);
                    let FmtLine::Normal(fc) = line() else { continue };
                    let kind = fc.kind;
                    if kind == CompositeKind::Code { continue; } // justified, with a spacing
                    if base.width > 2 { for w in 0..3 { ensure!(guard(|| wrap::hard_wrap_composite(&fc, w, skin))?.is_err(), "insufficient-width", "skin {sn}, {:?} is wrapped in {w} columns", base.text()); } }
                    for w2 in 6..=12usize {
                        let what = || format!("skin {sn}, {md:?} wrapped for {w1:?}, then row {:?} wrapped for {w2}", base.text());
                        let Ok(again) = guard(|| wrap::hard_wrap_lines(vec![line()], w2, skin))? else { return viol("insufficient-width", format!("{}: insufficient width", what())) };
                        let r = one(again, Some(w2))?;
                        l.trace(h64(&(sn, &base.text(), w2)));
                        if base.width <= w2 { ensure!(r.len() == 1 && flat(&r[0].g) == bg, "rewrap-same", "{}: {:?}", what(), r.iter().map(|r| r.text()).collect::<Vec<_>>()); continue; }
                        l.nontrivial();
                        for x in &r { ensure!(x.width <= w2, "rewrap-width", "{}: {:?} has {} columns", what(), x.text(), x.width); }
                        // the follow up rows start with an indentation or a quote mark
                        let lead = match kind {
                            CompositeKind::Quote => 2,
                            CompositeKind::ListItem(d) | CompositeKind::ListItemFollowUp(d) if skin.list_items_indentation_mode == ListItemsIndentationMode::Block => 2 + d as usize,
                            _ => 0,
                        };
                        let mut at: Vec<usize> = vec![0];
                        for (k, x) in r.iter().enumerate() {
                            let lead = if k == 0 { 0 } else { lead };
                            let marked = x.g.len() >= lead && (lead == 0 || if kind == CompositeKind::Quote { flat(&x.g[..2]) == bg[..2] } else { x.g[..lead].iter().all(|g| g.ch == ' ') });
                            ensure!(marked, "rewrap-mark", "{}: row {k} is {:?}", what(), x.text());
                            let x = &flat(&x.g[lead..])[..];
                            let mut next = Vec::new();
                            for &p in &at {
                                for s in p..base.g.len() {
                                    if bg[s..].starts_with(x) && !next.contains(&(s + x.len())) { next.push(s + x.len()); }
                                    if k == 0 || !base.g[s].ch.is_whitespace() { break; }
                                }
                            }
                            at = next;
                        }
                        ensure!(at.iter().any(|p| base.g[*p..].iter().all(|g| g.ch.is_whitespace())), "rewrap-content", "{}: {:?}", what(), r.iter().map(|r| r.text()).collect::<Vec<_>>());
                    }
                }
            } }
            Ok(())
        },
    });
}

/// unusual blanks and chars
fn chars_family(ctx: &Ctx, want: Want) {
    const TOKS: &[T] = &[T::W(1), T::W(3), T::Raw("\u{3000}"), T::Raw("\u{2003}"), T::S(1), T::Raw("…"), T::Raw("\u{1F600}"), T::Raw("`"), T::Raw("\u{a0}"), T::Raw("**"), T::Raw("\u{200b}")];
    let kinds: Vec<(&str, &str)> = KINDS.iter().take(6).copied().collect();
    let mut sk = skins(); sk.truncate(ctx.by(2, 6));
    let widths: Vec<Option<usize>> = [Some(4), Some(5), Some(3), Some(6), Some(8), None].to_vec();
    let seqs = Seqs { a: TOKS.len() as u64, min: 1, max: ctx.by(4, 5) };
    let doc = |i: u64| {
        let mut m = Mixed(i);
        let k = m.take(kinds.len());
        let toks: Vec<T> = seqs.get(m.0).into_iter().map(|x| TOKS[x]).collect();
        format!("{}{}", kinds[k].1, build(&toks))
    };
    ctx.family(&Fam {
        name: "chars".into(),
        bounds: format!("one line of {} kinds, content = all sequences of <= {} tokens of {TOKS:?}, widths {widths:?}, {} skins", kinds.len(), seqs.max, sk.len()),
        n: kinds.len() as u64 * seqs.len(),
        d: |i| json!({"markdown": doc(i)}),
        c: |i, l: &mut Local| run_case(&doc(i), &sk, &widths, want, l),
    });
}

/// every way to define or not the colors and attributes of line and span styles, on
/// spans with every set of flags
fn span_styles_family(ctx: &Ctx, want: Want) {
    use termimad::crossterm::style::{Attribute, Color};
    let mut flags = Vec::new();
    for f in 0..16u8 {
        let (mut a, mut b) = (String::new(), String::new());
        for (k, m) in [(0, "~~"), (1, "**"), (2, "*"), (3, "`")] { if f >> k & 1 == 1 { a += m; b = format!("{m}{b}"); } }
        flags.push(format!("{a}{}{b}", (b'a' + f) as char));
    }
    let md = ["", "# ", "* ", "> ", "|"].iter().map(|k| format!("{k}{}", flags.join("z "))).collect::<Vec<_>>().join("\n");
    let mut seen = std::collections::HashSet::new();
    for line in &minimad::parse_text(&md, minimad::Options::default()).lines {
        if let minimad::Line::Normal(c) = line { for c in &c.compounds { seen.insert((c.bold, c.italic, c.strikeout, c.code)); } }
    }
    assert_eq!(seen.len(), 16, "not all the sets of flags");
    let skin = |i: u64| {
        let mut m = Mixed(i);
        let mut s = MadSkin::no_style();
        let mut def = |k: u8, attr: Attribute| {
            let mut cs = CompoundStyle::default();
            if m.take(2) == 1 { cs.set_fg(Color::AnsiValue(100 + k)); }
            if m.take(2) == 1 { cs.set_bg(Color::AnsiValue(200 + k)); }
            if m.take(2) == 1 { cs.add_attr(attr); cs.object_style.underline_color = Some(Color::AnsiValue(50 + k)); }
            cs
        };
        s.bold = def(1, Attribute::Bold);
        s.italic = def(2, Attribute::Italic);
        s.strikeout = def(3, Attribute::CrossedOut);
        s.inline_code = def(4, Attribute::Reverse);
        let l = def(5, Attribute::Underlined);
        s.paragraph.compound_style = l.clone();
        s.headers[0].compound_style = l.clone();
        s.table.compound_style = l;
        s
    };
    let widths = [Some(11), None];
    ctx.family(&Fam {
        name: "span-styles".into(),
        bounds: "all the ways of defining or not the foreground, background and an attribute with an underline color of bold, italic, strikeout, inline code and lines (32768 skins), on a paragraph, header, item, quote and table with spans of all 16 sets of flags, wrapped or not".into(),
        n: 1 << 15,
        d: |i| json!({"skin": i, "markdown": md}),
        c: |i, l: &mut Local| run_case(&md, &[(format!("{i:#017b}"), skin(i))], &widths, want, l),
    });
}
