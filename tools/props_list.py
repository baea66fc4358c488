RENDER_FILES = ["src/text.rs", "src/fit/wrap.rs", "src/tokens.rs", "src/composite.rs", "src/skin.rs", "src/displayable_line.rs"]
prop("C01", "Wrapped text never exceeds the requested width",
 "Whatever the markdown and the skin, when a text is formatted for a width of at least 3, no displayed row (paragraph, header, list item, quote, code line, rule, or table when the width is at least 5) takes more columns than that width. Margins, markers and alignment padding are counted, and wide and zero-width chars count for their display width. The only exception is a row on which a line's marker and one of its chars can't both fit beside the margins.",
 ["inputs", "configurations"], "all markdown documents, all skins (margins, alignments, list modes), all widths >= 3",
 "The tests wrap one four-line text at widths 3 to 49 with the default skin and measure it with the library's own counter; overflow depends on the combination of words, blanks, spans, wide chars, margins, markers and width.",
 RENDER_FILES + ["src/tbl.rs", "src/fit/tbl_fit.rs", "src/code.rs"], [("hard_wrap_composite", "src/fit/wrap.rs"), ("tokenize", "src/tokens.rs"), ("justify_blocks", "src/code.rs"), ("margins_in", "src/line_style.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display"])
prop("C02", "Wrapping keeps the content, in order, once, and cuts only words too wide",
 "The rows displayed for a source line show all its chars, in order and exactly once, except for blanks (outside of inline code, where only whole blank parts may go) which may be dropped at a line change, and a line which fits the width isn't wrapped. A word (a run of non blank chars of one span, an inline code span counting as one word) is cut only when it's wider than the room left beside margins and marker. Rows follow the order of the source, every source line giving at least one row.",
 ["inputs", "configurations"], "all markdown documents, skins and widths >= 3 (and no width, where nothing is wrapped)",
 "The tests compare row lengths of one text at one width; they don't check that the rows show the source.",
 RENDER_FILES, [("hard_wrap_composite", "src/fit/wrap.rs"), ("tokenize", "src/tokens.rs"), ("Token::to_compound", "src/tokens.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display"])
prop("C03", "Tables are rectangular, with aligned borders, and fit the width",
 "Every table formatted for a width of at least 5 is a rectangle: all its rows have the same borders at the same columns, its first rule is a top border when it's the first line, a last line rule is a bottom border, other rules are junctions, and the whole is placed by the table alignment. It isn't wider than the width; each column is at least 3 wide and at most as wide as its widest cell (or 3), all columns having exactly that natural width (and no cell being wrapped) when this fits. Columns are dropped, from the right, only when 4 columns of text per table column plus one don't fit, and then as many as possible are kept.",
 ["inputs", "configurations"], "all tables (ragged rows, rules anywhere, any alignment), all skins, all widths >= 5 or none",
 "The tests fit a couple of column-width vectors; they render no table. Geometry depends on number of cells, their widths, rules and available width together.",
 ["src/tbl.rs", "src/fit/tbl_fit.rs", "src/displayable_line.rs", "src/skin.rs", "src/table_border_chars.rs"], [("Table::fix_columns", "src/tbl.rs"), ("TblFit::fit", "src/fit/tbl_fit.rs"), ("find_tables", "src/tbl.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display"])
prop("C04", "Table cells show their content with the column's alignment",
 "The rows of a table row show, column by column, the content of each of its cells, in order and once (only blanks being dropped at a line change, words being cut only when wider than the column), and blanks where a cell is missing. The content is aligned in its column according to the last rule above it in the table (centered when there's none). The content of a cell is never shown in another column or on the rows of another table row.",
 ["inputs", "configurations"], "all tables, skins and widths >= 5 or none",
 "No test looks at the cells of a rendered table.",
 ["src/tbl.rs", "src/spacing.rs", "src/composite.rs", "src/displayable_line.rs"], [("Table::fix_columns", "src/tbl.rs"), ("Spacing::completions_for", "src/spacing.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display"])
prop("C05", "Every displayed char carries exactly the style given by the skin",
 "Every displayed glyph has exactly the colors and attributes which the skin gives to its element: the style of the line kind, overridden in order by italic, strikeout, bold and inline code for the spans it's in (colors replaced when defined, attributes added), or the one of the marker, the border, the rule or the padding it belongs to. No style leaks on the following glyph, wrapped part or row. A skin without style outputs no escape sequence.",
 ["inputs", "configurations"], "all markdown documents, skins and widths",
 "Two tests check a handful of style strings; none checks the style at each position, which depends on spans, wrapping points and paddings.",
 ["src/skin.rs", "src/compound_style.rs", "src/displayable_line.rs", "src/styled_char.rs", "src/line_style.rs"], [("compound_style", "src/skin.rs"), ("CompoundStyle::overwrite_with", "src/compound_style.rs"), ("write_fmt_composite", "src/skin.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display"])
prop("C06", "Alignment, margins, indentation and code block rectangles are respected",
 "Each row is placed exactly according to the alignment and margins of its line kind in the formatting width (margins being ignored when less than 3 columns would be left), with the marker first and, for follow-up rows of list items, the indentation of the list mode, quotes repeating their mark. The lines of a code block form one rectangle, as wide as its widest displayed row, aligned as a whole. A horizontal rule spans exactly the width.",
 ["inputs", "configurations"], "all markdown documents, alignments, margins, list modes and widths >= 3 or none",
 "No test checks a position. Placement depends on line kind, margins, alignment, width parity and wrapping together.",
 ["src/skin.rs", "src/spacing.rs", "src/code.rs", "src/line_style.rs", "src/displayable_line.rs", "src/list_indentation.rs"], [("write_fmt_composite", "src/skin.rs"), ("margins_in", "src/line_style.rs"), ("CodeBlock::justify", "src/code.rs"), ("follow_up_composite", "src/fit/wrap.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display"])
NOTE_BFS = ("Exhaustive within the stated bounds: all operation sequences over the alphabet, or the whole reachable state set where the evidence says closed. "
            "No separate model to validate: the transition relation is the real code, the reference is compared at each transition.")
prop("C07", "Shortened composites fit, keep order and styles, and show one ellipsis",
 "A composite which fits a width is left intact by Fitter and write_composite_fill; otherwise the result takes at most that width (exactly it when padded by fill, or when all its chars are one column wide; marker and ellipsis being always kept), and each removed range, one at the end for a left alignment, one at the start for a right one, at the end and perhaps at the start for a centered one, anywhere for an unspecified one, is replaced by a single ellipsis in the skin's ellipsis style. Kept chars keep their order, style and marker, and padding is placed according to the alignment. Filling, fitting or extending again at another width or alignment obeys the same rules.",
 ["inputs", "configurations", "operation sequences"], "all composites (any spans, empty spans, wide chars), alignments, widths and sequences of fits",
 "The tests fit three composites; the choice of what to cut depends on the sizes of the spans, their chars' widths, the alignment and the width.",
 ["src/fit/composite_fit.rs", "src/composite.rs", "src/skin.rs", "src/inline.rs"], [("Fitter::fit", "src/fit/composite_fit.rs"), ("FmtComposite::fill_width", "src/composite.rs"), ("write_composite_fill", "src/skin.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtInline display", "write_composite_fill"])
prop("C08", "Cropped writers never pass their width and fill exactly what they should",
 "CropWriter, whatever the sequence of queued strings, chars, spaces, fills and repeats, writes at most its allowed width, being the longest prefix of what was queued which fits (tabs being replaced), and fills up to exactly that width; StrFit gives the longest fitting prefix (a backspace counting for -1 column). Spacing writes a string in exactly its width, aligned, and Filling writes exactly the requested number of its char. No char is split or reordered and the style of each is the requested one.",
 ["inputs", "operation sequences"], "all strings, widths and sequences of write operations",
 "The tests don't cover CropWriter nor Filling; what's allowed depends on everything which was queued before.",
 ["src/fit/crop_writer.rs", "src/fit/str_fit.rs", "src/fit/filling.rs", "src/spacing.rs"], [("CropWriter", "src/fit/crop_writer.rs"), ("StrFit::make_cow", "src/fit/str_fit.rs"), ("Filling::queue_unstyled", "src/fit/filling.rs")],
 TECH_BFS, NOTE_BFS, observe=["the bytes written"])
prop("C09", "Text views paint every cell of their area, and nothing outside",
 "Whatever the markdown, skin, area of at least 6 columns, scroll and scrollbar option, TextView, MadView and write_in_area write each cell of the area and none outside of it, whatever was there before, with no style left active. Row j shows the line scroll+j of the text formatted for the area, and blanks after the end. The scrollbar is present if and only if wanted and the content is higher than the area, in the last column of the area.",
 ["inputs", "configurations"], "all texts, skins, areas at least 6 columns wide, scrolls",
 "No test writes a view; holes and overflows depend on lines, alignments, margins, wide chars, scroll and area together.",
 ["src/views/text_view.rs", "src/views/mad_view.rs", "src/skin.rs", "src/displayable_line.rs", "src/area.rs"], [("TextView::write_on", "src/views/text_view.rs"), ("write_in_area_on", "src/skin.rs")],
 TECH_DOC, NOTE_DOC, observe=["screen contents"])
prop("C10", "Scrolling stays within the content and moves as requested",
 "In every reachable state of a TextView or MadView (of height 1 or more), scrolling by lines, pages (also fractional) or keys moves by exactly the requested amount, clamped so that the scroll is between 0 and content height minus area height (0 if it all fits). The boolean result of key handling tells whether something changed, and other keys change nothing. Resizing a MadView to another height keeps the scroll unless it must be reduced, and after any resize the scroll is in these limits and the text is formatted for the new area.",
 ["operation sequences", "configurations"], "all operation sequences, content and area heights, counts",
 "No test scrolls a view; the guarantee is on every history of operations.",
 ["src/views/text_view.rs", "src/views/mad_view.rs"], [("TextView::try_scroll_lines", "src/views/text_view.rs"), ("MadView::resize", "src/views/mad_view.rs")],
 TECH_BFS, NOTE_BFS, observe=["TextView.scroll", "MadView.scroll", "screen contents"], state=[("scroll", "first displayed line", "src/views/text_view.rs"), ("scroll", "first displayed line", "src/views/mad_view.rs")])
prop("C11", "Scrollbar thumb reflects position and size and stays in the track",
 "For every scroll, content height and track, Area::scrollbar and compute_scrollbar give a thumb which is inside the track and at least one cell high, or nothing when the content fits. The thumb touches the top at scroll 0 (and, for heights above 1, only then) and the bottom at the maximal scroll, never moves up when scrolling down, and its position and size are proportional (up to rounding) to the scroll and the visible part. Nothing overflows, whatever the values.",
 ["inputs"], "all scrolls (also too big ones), content heights, track heights and positions",
 "The test checks a few values; rounding errors appear on specific triples only.",
 ["src/area.rs"], [("compute_scrollbar", "src/area.rs"), ("Area::scrollbar", "src/area.rs")],
 TECH_DOC, "Exhaustive for the stated ranges of scroll, content height, track height and top, plus the extreme values.", observe=["compute_scrollbar result"])
INPUT_FILES = ["src/views/input_field.rs", "src/views/input_field_content.rs"]
prop("C12", "InputField edits and moves are those of a reference line editor",
 "From any content and cursor, every editing or moving function of InputField and InputFieldContent, and every key or event it handles, gives the content, cursor and boolean result of a reference editor: chars, words, lines, homes and ends, indented or moved lines (the cursor following), new lines on the configured keys only, \\r and backspace chars skipped in inserted strings. Vertical moves keep the display column, del_char_below never moves the cursor, and set_str moves the cursor only when the content changes. A key which isn't handled, or is handled without effect, changes nothing, and the cursor is always inside the content.",
 ["operation sequences", "inputs"], "all contents, cursors, keys and sequences of operations",
 "The tests apply a few fixed sequences of edits; behaviour depends on the content, the position of the cursor (line ends, wide chars, last line) and the history.",
 ["src/views/input_field.rs", "src/views/input_field_content.rs"], [("InputField::apply_keycode_event", "src/views/input_field.rs"), ("InputFieldContent", "src/views/input_field_content.rs")],
 TECH_BFS, NOTE_BFS, observe=["get_content", "cursor_pos", "returned booleans"], state=[("lines, pos", "content and cursor", "src/views/input_field_content.rs")])
prop("C13", "InputField selections are copied, cut, replaced and pasted exactly",
 "Whatever the content, cursor and selection tail, the selection is the range between both, included (a new line being the last char of its line), whatever their order; copying gives its text, and deleting, cutting or replacing it removes exactly those chars and leaves the cursor where it started, so that pasting what was cut restores the content. Moves made with shift extend the selection and keep its tail, others end it, and selecting words or everything selects exactly that. An edition never makes wide a selection which wasn't, and clearing ends the selection.",
 ["operation sequences", "inputs"], "all contents, cursors, selection tails and sequences of operations",
 "The tests use one selection in one content; the removed range depends on the order of head and tail, line ends, empty lines.",
 INPUT_FILES, [("del_selection", "src/views/input_field_content.rs"), ("selection", "src/views/input_field_content.rs"), ("copy_selection", "src/views/input_field.rs")],
 TECH_BFS, NOTE_BFS, observe=["get_content", "cursor_pos", "selection", "copy_selection"], state=[("lines, pos, other", "content, cursor and selection tail", "src/views/input_field_content.rs")])
prop("C14", "InputField shows its content, with a visible cursor, inside its area",
 "Displaying an InputField writes each cell of its area and none outside: on row j are the columns of line scroll.y+j starting at column scroll.x, tabs being replaced, chars being stars in password mode, half hidden wide chars being blank, with an ellipsis at the left when scrolled (if there's room) and at the right when truncated. When focused, the selected chars (or the char under the cursor) are in the cursor style, and others in the normal or unfocused style. After any edition, move, click, resize or focus change, the cursor of the focused field is visible without scrolling past the end of its line (but one column for the cursor) nor of the lines, display_on returns its position on screen, clicks put the cursor on the displayed char, and the wheel scrolls without moving the cursor.",
 ["operation sequences", "configurations", "inputs"], "all contents, areas, focus and password modes, histories of edits, moves, clicks, wheel events, resizes",
 "No test displays an InputField nor clicks on it; the scroll depends on the whole history.",
 INPUT_FILES, [("InputField::display_on", "src/views/input_field.rs"), ("fix_scroll", "src/views/input_field.rs"), ("apply_click_event", "src/views/input_field.rs")],
 TECH_BFS, NOTE_BFS, observe=["screen contents", "display_on result", "cursor_pos"], state=[("scroll", "first displayed line and column", "src/views/input_field.rs")])
prop("C15", "ListView keeps rows, filter, sort, selection and scroll coherent",
 "In every reachable state of a ListView (at least 3 rows high), row_counts is the number of rows passing the filter and of all rows, and the displayed rows are those passing the filter, in the order of addition (or of the sort, equal rows staying in the order of addition), from the scroll on. Selecting the next or previous row cycles among the rows passing the filter (starting from the first one on screen when there's no selection), first and last go to the ends of those rows, and adding rows, sorted or not, scrolling or filtering leaves the same row selected; after a selection or scroll operation the selected row is visible if it passes the filter. Scrolling by lines or pages moves by exactly the requested amount (but for keeping the selection visible), clamped between 0 and one more than the number of rows passing the filter minus the number of visible rows (0 when all fit; only enlarging the area may leave it over that), and a list which shows its last row goes on showing it when rows are added without sort.",
 ["operation sequences"], "all sequences of additions, filters, scrolls, selections and resizes",
 "No test covers ListView; the state depends on the whole history of additions, filters, selections and scrolls.",
 ["src/views/list_view.rs"], [("add_row", "src/views/list_view.rs"), ("try_select_next", "src/views/list_view.rs"), ("make_selection_visible", "src/views/list_view.rs"), ("set_filter", "src/views/list_view.rs")],
 TECH_BFS, NOTE_BFS, observe=["row_counts", "get_selection", "do_scroll_show_bottom", "screen contents"], state=[("scroll, selection, displayed_rows_count", "scroll, selected row, count of filtered rows", "src/views/list_view.rs")])
prop("C16", "ListView paints its whole area with aligned, truncated, styled cells",
 "Writing a ListView (at least 3 rows high and wide enough for the minimal widths, separators and scrollbar) writes each cell of its area and none outside, with a row of titles (the title of adjacent columns with the same title being written once, centered over them), a separator whose junctions are under the separators of the columns, the visible rows, then blanks. Cells are cut to the width of their column and aligned in it (cut cells being left aligned), in their style, those of the selected row on the selection background. Column widths are between their minimum and maximum and, after update_dimensions, as wide as allowed by the area, and the scrollbar is in the last column of the area if and only if there are more rows than visible ones.",
 ["inputs", "configurations"], "all column sets, areas, rows, scrolls and selections",
 "No test displays a ListView.",
 ["src/views/list_view.rs", "src/spacing.rs", "src/area.rs"], [("ListView::write_on", "src/views/list_view.rs"), ("ListView::update_dimensions", "src/views/list_view.rs"), ("Spacing::write_counted_str", "src/spacing.rs")],
 TECH_DOC, NOTE_DOC, observe=["screen contents", "scrollbar()"])
prop("C17", "Serialized skins and styles are read back unchanged",
 "Any CompoundStyle, LineStyle (with margins up to 65535), StyledChar or MadSkin made of colors, attributes which the style syntax knows, alignments, margins, standard table borders and a list mode, once serialized is deserialized into one with the same effect, for each of its parts, including how styled chars are displayed. A skin deserialized from only some keys (in any of their accepted spellings) is the default one with only those parts changed, a style given for all headers changing every one of them.",
 ["inputs"], "all styles, styled chars, skins and subsets of keys",
 "The tests deserialize a couple of skins; what's lost depends on the value of each part.",
 ["src/serde/serde_skin.rs", "src/serde/serde_scrollbar_style.rs", "src/serde/serde_line_style.rs", "src/serde/serde_styled_char.rs", "src/serde/serde_compound_style.rs", "src/parse/"], [("MadSkin Serialize, Deserialize", "src/serde/serde_skin.rs"), ("PushStyleTokens", "src/parse/")],
 TECH_DOC, NOTE_DOC, observe=["serde_json::to_string and from_str"])
prop("C18", "Style strings are parsed to what they say, or rejected",
 "Every sequence of known tokens (color names, ansi(), gray(), rgb(), #rgb and #rrggbb, attributes in any of their spellings, alignments, none, dimensions, a char), whatever the case of words and the blanks between tokens, is parsed to exactly these tokens, and gives the style in which the first color (or none) is the foreground, the second one the background, the attributes are added, the first dimension is the left margin and the second the right one. A word which isn't a token, or a component out of its range, makes the whole string rejected. What write_style_tokens and style_tokens_to_string write is parsed back to the same tokens.",
 ["inputs"], "all sequences of tokens and all component values",
 "The tests parse a few strings; the tokens are found by loosely anchored regexes whose order matters.",
 ["src/parse/"], [("parse_style_tokens", "src/parse/"), ("parse_color", "src/parse/"), ("parse_styled_char", "src/parse/parse_styled_char.rs")],
 TECH_DOC, NOTE_DOC, observe=["parse_* results"])
prop("C26", "Blending and skin-wide setters change all they say, and nothing else",
 "Rendering with a skin on which blend_with was called gives the same rows as with the original one, with the same attributes, each displayed foreground and background being blended once with the given color at the given weight (the scrollbar and special chars excepted), a weight of 0 changing nothing; the same goes for blending a CompoundStyle, LineStyle or StyledChar. set_fg and set_bg change the foreground or background of texts, marks, rules and ellipsis (not of code), set_bg also the one of tables and scrollbars, and set_headers_fg and set_headers_bg the ones of all headers, set_global_bg the background of paragraphs, headers and rules, to the given color, without changing anything else. After limit_to_ascii, the marks, borders and rules displayed are ASCII chars, at the same places and with the same styles.",
 ["inputs", "configurations"], "all skins, colors, weights and documents",
 "No test covers blending nor setters; a forgotten part of the skin is only visible on documents which use it.",
 ["src/skin.rs", "src/compound_style.rs", "src/line_style.rs", "src/styled_char.rs"], [("MadSkin::blend_with", "src/skin.rs"), ("CompoundStyle::blend_with", "src/compound_style.rs"), ("MadSkin::set_fg", "src/skin.rs"), ("limit_to_ascii", "src/skin.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display", "write_composite_fill"])
prop("C23", "A question is asked until answered, and gives the right answer",
 "Question::ask shows the question, then a line \"[key] text\" per answer (the key of the default in bold), then reads lines until one, without its trailing blanks, is a key, which it returns, or is empty while there's a default, in which case it returns the default; each other line is refused with 'answer \"…\" not understood'. When the input is closed before that it returns an UnexpectedEof error instead of looping. The ask! macro executes the block of the given answer, once, and no other one.",
 ["inputs", "operation sequences"], "all questions, defaults and sequences of typed lines, the last one being ended or not",
 "No test covers questions, which read stdin; the outcome depends on the whole sequence of typed lines and on where the input ends.",
 ["src/ask.rs"], [("Question::ask", "src/ask.rs"), ("ask!", "src/ask.rs")],
 "explicit exhaustive enumeration of all bounded stdin scripts, the real code being executed in child processes whose stdin and stdout are controlled, compared with a reference dialog",
 "Exhaustive for scripts of a bounded number of lines from an alphabet of keys, near keys, blanks, unknown answers and ends of file.", observe=["Question::ask result", "stdout"])
prop("C24", "Rects, progress bars and areas cover exactly the stated cells",
 "A Rect writes its border and, if filled, the inside, in its style, and no other cell, whatever its size. A ProgressBar shows the part rounded to the nearest eighth of column, in at most its width, never less for a bigger part, and is padded when printed with a width. The right, bottom, contains, pad and pad_for_max_width functions of Area agree with the set of cells it covers, and nothing overflows.",
 ["inputs"], "all areas, borders, fills, styles, parts, widths and points",
 "No test draws them; rounding and degenerate sizes are specific values.",
 ["src/rect.rs", "src/views/progress.rs", "src/area.rs"], [("Rect::draw", "src/rect.rs"), ("ProgressBar", "src/views/progress.rs"), ("Area::pad_for_max_width", "src/area.rs")],
 TECH_DOC, "Exhaustive for the stated ranges of sizes, positions and fractions.", observe=["screen contents", "Area methods"])
prop("C25", "Rendering any text in any width or area never fails",
 "Whatever the text (unbalanced or nested marks, odd tables, wide, combining or zero width chars, very long or deep lines), the width (including 0 and none), the area, scroll and keys, rendering it with any skin, as text, inline, shortened inline or in any view, neither panics, nor overflows, nor fails to end. What's written is only text, line ends and complete escape sequences, and every style is reset at the end of what it was for.",
 ["inputs", "configurations"], "all texts, widths, areas and skins",
 "A panic needs the meeting of a specific construct and a specific width; tests render a few documents at comfortable widths.",
 ["src/"], [("MadSkin::text", "src/skin.rs"), ("hard_wrap_lines", "src/fit/wrap.rs"), ("fix_all_tables", "src/tbl.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText display", "views' output"])
prop("C27", "content_width is right, and lines are placed in a rendering width",
 "FmtText::content_width is the width of the widest displayed row, margins, alignment and horizontal rules excepted. A text whose rendering width is set to anything from that width up displays the same rows, never wider, placed according to their alignment between their margins (which are given up when less than 3 columns would remain or the row wouldn't fit), horizontal rules taking the whole rendering width.",
 ["inputs", "configurations"], "all documents, skins, formatting widths and rendering widths",
 "No test checks content_width nor a rendering width differing from the formatting one; each kind of line adds its own marks.",
 ["src/fit/", "src/text.rs", "src/line.rs", "src/composite.rs", "src/skin.rs"], [("FmtText::content_width", "src/text.rs"), ("FmtLine::visible_length", "src/line.rs"), ("MadSkin::write_fmt_line", "src/skin.rs")],
 TECH_DOC, NOTE_DOC, observe=["FmtText::content_width", "FmtText display"])
prop("C28", "Templates, raw texts and all entry points give the same rendering",
 "In mad_print_inline and mad_write_inline templates, $0 to $9 are replaced by the value of that index, taken literally (never as markdown nor template), in the style of where they are; raw texts are displayed without any interpretation; and a compound among the special_chars of the skin is displayed as its replacement. The text, term_text, area_text, write and print functions (of the skin, of the default skin, of views and of expanders, on stdout or not) all give the same bytes as text (or inline) does at the width of the area or terminal they're for. A DisplayableLine is the same line completed with blanks up to the width.",
 ["inputs", "configurations"], "all templates, values, texts, skins and terminal sizes",
 "The tests cover none of the macros nor printing functions, which need a terminal; what breaks is specific to a mix of value and template.",
 ["src/macros.rs", "src/skin.rs", "src/text.rs", "src/displayable_line.rs"], [("mad_write_inline!", "src/macros.rs"), ("print_text, print_inline, print_expander", "src/skin.rs"), ("FmtText::raw_str", "src/text.rs")],
 TECH_DOC, NOTE_DOC, observe=["bytes written on a buffer or on the stdout of a child process in a pseudo terminal"])
prop("C29", "Table columns are natural when they fit, else fill the width exactly",
 "TblFit::new fails if and only if the width is less than 4 columns per table column plus 1. When their natural widths (the one of the widest cell, at least 3), plus the borders, fit in the width, columns have them and the fit isn't told reduced; otherwise it's told reduced, the columns and borders take exactly the available width, and each column is between 3 and its natural width.",
 ["inputs"], "all numbers of columns, cell widths and available widths",
 "The tests check a few sets of columns; the reduction goes through several cases and roundings, each one for specific sets.",
 ["src/fit/tbl_fit.rs"], [("TblFit::fit", "src/fit/tbl_fit.rs"), ("TblFit::new", "src/fit/tbl_fit.rs")],
 TECH_DOC, "Exhaustive for the stated sets of cell widths and available widths.", observe=["TblFit::fit result"])

TECH_SCHED = "stateless model checking: depth first exploration of all the schedules (within a bound on delays) of the real multi-threaded code under a controlled scheduler with a virtual clock and a scripted terminal, for all bounded inputs and application behaviours"
NOTE_SCHED = ("Exhaustive within the stated bounds on inputs and delays (deviations from the default scheduler). Scheduling points: operations on channels, futexes, "
              "thread creations and ends, sleeps, terminal calls; sequentially consistent memory. crossterm's terminal is replaced by a model (sched/src/term.rs) and crossbeam-channel gets scheduling points, both through [patch.crates-io] of the harness.")
EV_FILES = ["src/events/event_source.rs", "src/events/timed_event.rs", "src/events/escape_sequence.rs"]
prop("C19", "EventSource delivers each event once, in order, then waits to be unblocked",
 "Under any schedule, each event read from the terminal (not filtered out) is received exactly once and in order on the channel of the EventSource, the terminal not being read between the sending of an event and its unblocking; a failing read is retried. A complete escape sequence (from alt-_ to alt-\\, of keys without alt nor control) is never sent as events but as a whole, in order, on its own channel (the ones which come when 10 of them wait there are dropped, without blocking anything), and an interrupted one is sent as separate events before the interrupting event. The shared event count is the number of events sent, increased before they can be received; unblock(true), or the drop of the source while an event isn't unblocked, ends the thread and closes the channels.",
 ["schedules", "inputs", "faults"], "all interleavings of the application and the source, all sequences of inputs, read failures, and behaviours of the application",
 "No test creates an EventSource (it needs a terminal); what's guaranteed depends on the interleaving of the threads and on where sequences are interrupted.",
 EV_FILES, [("EventSource::with_options", "src/events/event_source.rs"), ("EventSource::unblock", "src/events/event_source.rs")],
 TECH_SCHED, NOTE_SCHED, observe=["receiver()", "escape_sequence_receiver()", "shared_event_count()", "calls of crossterm::event::read"], state=[("current_escape_sequence", "keys of the escape sequence in progress", "src/events/event_source.rs"), ("event_count", "number of events sent", "src/events/event_source.rs")])
prop("C20", "EventSource detects double clicks, combines keys, and filters as asked",
 "A received event has double_click set if and only if it's a left button press or release in the cell of the previous left button release, less than 700 ms after it. Its key_combination is the one crokey's Combiner, configured as asked, gives when fed with all the keys in order, except those of complete escape sequences; key events without combination, mouse moves and mouse drags are received or not according to the options, and every other event is received. as_click gives the cell of simple left releases without modifier, is_key compares with the combination or the key, and an escape sequence is displayed as its chars without modifier.",
 ["inputs", "operation sequences", "configurations"], "all sequences of mouse, key and other events, delays between them, and options",
 "No test makes events go through an EventSource; a double click depends on the whole history of positions and times.",
 EV_FILES, [("last_up", "src/events/event_source.rs"), ("TimedEvent::as_click", "src/events/timed_event.rs")],
 "explicit exhaustive enumeration of all bounded timed event sequences, played on the real code through a scripted terminal with a virtual clock, and compared with a reference interpretation", NOTE_SCHED, observe=["TimedEvent"], state=[("last_up", "time and cell of the last left release", "src/events/event_source.rs")])
prop("C21", "Ticker beams tick at their period, as many times as asked, until stopped",
 "Under any schedule, the n-th tick of a beam never comes before n periods after its start (and comes exactly then when nothing delays its thread), with its payload, and a beam asked for n ticks gives exactly n if it isn't stopped. Stopping a beam by its id stops it and no other one: nothing of it comes later than the stop, but for at most one tick which was being sent; stopping an unknown or finished one does nothing and never blocks. The threads of finished or stopped beams end, and dropping the Ticker stops all beams, so that its channel is closed.",
 ["schedules", "operation sequences"], "all sequences of starts, stops and waits, and all interleavings and delays of the threads",
 "No test covers Ticker; races between a tick and a stop depend on the schedule.",
 ["src/events/tick_beam.rs"], [("Ticker::start_beam", "src/events/tick_beam.rs"), ("Ticker::stop_beam", "src/events/tick_beam.rs")],
 TECH_SCHED, NOTE_SCHED, observe=["tick_receiver", "ends of threads"], state=[("beams", "handles of the beams which weren't stopped", "src/events/tick_beam.rs")])
prop("C22", "EventSource sets the terminal up and restores it, even on failures",
 "While an EventSource exists the raw mode is enabled, and it's disabled once it's dropped, from any thread and at any point of the schedule; the keyboard enhancement flags are pushed if and only if combining is asked for and supported (which supports_multi_key_combinations tells) and popped exactly once, when its thread ends, which happens at the latest at the first event after the drop. When making the source fails (raw mode, keyboard support query or writing failing), an error is returned, no thread is started, and the terminal is as before.",
 ["schedules", "faults", "configurations"], "all failures of terminal calls, options, points of drop and interleavings",
 "No test creates an EventSource, nor makes terminal calls fail.",
 ["src/events/event_source.rs"], [("EventSource::with_options", "src/events/event_source.rs"), ("Drop for EventSource", "src/events/event_source.rs")],
 TECH_SCHED + ", with fault injection", NOTE_SCHED, observe=["calls of enable_raw_mode and disable_raw_mode", "bytes written on stdout", "ends of threads"])
prop("C30", "Styles keep exactly what was set, and everything written with them shows it",
 "Whatever the sequence of changes made to a CompoundStyle, LineStyle, StyledChar or ScrollBarStyle, its colors are the last ones set, its attributes those added and not removed since, and overwriting it with another style takes the colors this one defines (the underline color included), adds its attributes, and keeps the rest; the char, alignment and margins only change when set. Whatever is written with it, in any way (queue, queue_str, apply_to, repetitions, Display and queue of a StyledChar, cropped or not) is exactly the text or the repetitions of the char, in exactly that style, which is then reset (an underline color set without any attribute excepted); queue_fg and queue_bg only set the foreground or background when there's one, and clear clears with the background. Styles and colors have the values given to their constructors (gray levels over 23 being 23), a scrollbar made from a StyledChar having its background as track and its foreground as thumb.",
 ["inputs", "operation sequences"], "all sequences of changes, all styles, texts, chars and counts",
 "No test changes or writes styles; what's displayed depends on the whole history of changes (a StyledChar keeps a copy of its styled char).",
 ["src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/scrollbar_style.rs", "src/color.rs"], [("CompoundStyle::overwrite_with", "src/compound_style.rs"), ("StyledChar::set_char", "src/styled_char.rs"), ("repeat_string", "src/compound_style.rs")],
 TECH_BFS, "Closed over the colors, attributes and styles of the operations; all sets of attributes for what's written. Trusts the terminal interpreter of mc/src/emu.rs.", observe=["get_fg, get_bg, has_attr", "bytes written"])
prop("C31", "A failing or slow writer gets a prefix of the output, and its error is reported",
 "Every function writing on a given writer (texts, inlines, composites, views, styles, styled chars, cropped writers, fillings, spacings, rects, lists, macros) writes exactly the same bytes when the writer takes only a few bytes at a time or is interrupted. When the writer fails, at whatever byte and even if only once, the function stops there, without panicking nor trying to write anything more, what was written is a prefix of the normal output, and the error of the writer is returned; the same goes for displaying (fmt::Display) with a failing formatter. Functions writing on stdout (write_text, write_inline, write_in_area, write of views, display of an input field) flush it, and return an error when it's full.",
 ["inputs", "faults"], "all documents, styles, views, points of failure and kinds of failure",
 "No test makes a write fail; a forgotten error is only visible when the very write it comes from fails.",
 ["src/skin.rs", "src/views/text_view.rs", "src/views/mad_view.rs", "src/views/list_view.rs", "src/views/input_field.rs", "src/fit/crop_writer.rs", "src/fit/filling.rs", "src/spacing.rs", "src/rect.rs", "src/compound_style.rs"], [("MadSkin::write_fmt_line", "src/skin.rs"), ("TextView::write_on", "src/views/text_view.rs"), ("CropWriter", "src/fit/crop_writer.rs")],
 "fault injection, exhaustive over the points of failure: each function is run on the real code with a writer failing after each byte of its output (for good, once, or taking nothing more), for all documents of the bounds", "Deterministic faults of the writer only; the functions printing with print! panic, as print! does, when stdout fails and aren't concerned.", observe=["bytes accepted by the writer", "returned results"])
