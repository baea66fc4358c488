//! Alphabets: tokens of inline content, kinds of lines, skins.
use termimad::crossterm::style::{Attribute, Attributes, Color};
use termimad::*;

/// Inline tokens. Word tokens take their letters from a running sequence so that
/// the chars of a line are all distinct (reordering and duplication are visible).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum T { W(u8), S(u8), Wide(u8), Comb, Raw(&'static str) }
use T::*;
pub const INLINE: &[T] = &[W(1), S(1), W(3), Raw("*"), Raw("`"), Wide(1), S(3), Raw("**"), W(7), Comb, Raw("~~"), Raw("-")];
const LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const WIDES: &str = "漢字仮名交文章組版禁則処理行頭末日本語一二三四五六七八九十";
pub fn build(toks: &[T]) -> String {
    let mut s = String::new();
    let (mut l, mut w) = (0, 0);
    let letters: Vec<char> = LETTERS.chars().collect();
    let wides: Vec<char> = WIDES.chars().collect();
    for t in toks {
        match t {
            W(n) => for _ in 0..*n { s.push(letters[l % letters.len()]); l += 1; },
            S(n) => for _ in 0..*n { s.push(' '); },
            Wide(n) => for _ in 0..*n { s.push(wides[w % wides.len()]); w += 1; },
            Comb => { s.push(letters[l % letters.len()]); l += 1; s.push('\u{301}'); }
            Raw(r) => s.push_str(r),
        }
    }
    s
}
/// line prefixes: all kinds of non table lines
pub const KINDS: &[(&str, &str)] = &[
    ("paragraph", ""), ("item0", "* "), ("quote", "> "), ("header1", "# "), ("code", "    "), ("item2", "  * "), ("header2", "## "),
    ("item1", " * "), ("item3", "   * "), ("header3", "### "), ("header8", "######## "), ("header5", "##### "),
];

fn cs(fg: u8, bg: Option<u8>, attrs: &[Attribute]) -> CompoundStyle {
    let mut a = Attributes::default();
    for x in attrs { a.set(*x); }
    CompoundStyle::new(Some(Color::AnsiValue(fg)), bg.map(Color::AnsiValue), a)
}
/// a skin in which every element is distinguishable
pub fn full_skin() -> MadSkin {
    let mut s = MadSkin::no_style();
    s.paragraph.compound_style = cs(101, Some(1), &[]);
    s.bold = cs(102, None, &[Attribute::Bold]);
    s.italic = cs(103, Some(3), &[Attribute::Italic]);
    s.strikeout = CompoundStyle::new(None, Some(Color::Rgb { r: 1, g: 2, b: 3 }), Attribute::CrossedOut.into());
    s.inline_code = CompoundStyle::new(None, Some(Color::AnsiValue(5)), Attribute::Reverse.into());
    s.code_block.compound_style = cs(106, Some(6), &[Attribute::Dim]);
    for (i, h) in s.headers.iter_mut().enumerate() {
        h.compound_style = cs(110 + i as u8, Some(10 + i as u8), &[Attribute::Underlined]);
    }
    s.table.compound_style = cs(130, Some(30), &[]);
    s.bullet = StyledChar::new(cs(140, Some(40), &[Attribute::Bold]), '•');
    s.quote_mark = StyledChar::new(cs(141, Some(41), &[]), '▐');
    s.horizontal_rule = StyledChar::new(cs(142, None, &[]), '―');
    s.ellipsis = cs(143, Some(43), &[]);
    s.scrollbar.track = StyledChar::new(cs(144, Some(44), &[]), '░');
    s.scrollbar.thumb = StyledChar::new(cs(145, Some(45), &[]), '█');
    s
}
pub const ALIGNS: [Alignment; 4] = [Alignment::Unspecified, Alignment::Center, Alignment::Right, Alignment::Left];
pub fn set_geometry(s: &mut MadSkin, align: Alignment, lm: usize, rm: usize, mode: ListItemsIndentationMode) {
    for ls in [&mut s.paragraph, &mut s.code_block].into_iter().chain(s.headers.iter_mut()) {
        ls.align = align; ls.left_margin = lm; ls.right_margin = rm;
    }
    s.table.align = align;
    s.list_items_indentation_mode = mode;
}
/// The skins used with rich documents
pub fn skins() -> Vec<(String, MadSkin)> {
    let mut v = Vec::new();
    let mut f = full_skin();
    v.push(("full".to_string(), f.clone()));
    f.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly;
    f.headers[0].align = Alignment::Center;
    f.headers[1].align = Alignment::Right;
    f.headers[2].left_margin = 2;
    f.paragraph.left_margin = 1;
    f.paragraph.right_margin = 2;
    f.code_block.left_margin = 2;
    f.code_block.right_margin = 1;
    f.code_block.align = Alignment::Center;
    f.table.align = Alignment::Center;
    v.push(("margins".to_string(), f.clone()));
    v.push(("default".to_string(), MadSkin::default()));
    let mut a = MadSkin::no_style();
    a.limit_to_ascii();
    set_geometry(&mut a, Alignment::Right, 0, 1, ListItemsIndentationMode::Block);
    v.push(("ascii-right".to_string(), a));
    let mut d = MadSkin::default_dark();
    set_geometry(&mut d, Alignment::Center, 1, 0, ListItemsIndentationMode::FirstLineOnly);
    v.push(("dark-center".to_string(), d));
    v.push(("nostyle".to_string(), MadSkin::no_style()));
    v
}
