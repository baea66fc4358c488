From dc36997bbf07dcc2140c223973717e95ad8634c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 01/56] fix: don't panic when wrapping a deep list item in a
 narrow width

---
 src/fit/wrap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..2767350 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,9 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    // (the bullet of a deep list item may be wider than the available width)
+    let max_token_width = width.saturating_sub(first_width).max(1);
+    let mut tokens = tokenize(&src_composite.compounds, max_token_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     for token in tokens.drain(..) {
-- 
2.43.0


From cc41751c3ffb235df24fa7963d1f587ea331669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 02/56] fix: words separated by several blanks aren't glued
 when wrapping

---
 src/fit/wrap.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 2767350..4e64628 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -107,11 +107,14 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, max_token_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut at_line_change = false;
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
+        if at_line_change || dst_composite.visible_length + token.width > width {
+            // we skip blank composite at line change, and a skipped blank always implies
+            // a line change (so that the words around it aren't glued)
+            at_line_change = token.blank;
             if !token.blank {
-                // we skip blank composite at line change
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From ecf216923d65559853c5281bfc9c99eb03271f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 03/56] fix: code block lines aren't padded beyond the
 available width

---
 src/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index fce441a..62f1703 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -60,13 +60,14 @@ impl<'k, 's> FmtText<'k, 's> {
             .map(|mline| FmtLine::from(mline, skin))
             .collect();
         tbl::fix_all_tables(&mut lines, width.unwrap_or(usize::MAX), skin);
-        code::justify_blocks(&mut lines);
         if let Some(width) = width {
             if width >= 3 {
                 lines =
                     wrap::hard_wrap_lines(lines, width, skin).expect("width should be wide enough");
             }
         }
+        // must be done after wrapping, so that blocks aren't wider than the available width
+        code::justify_blocks(&mut lines);
         FmtText { skin, lines, width }
     }
     /// set the width to render the text to.
-- 
2.43.0


From 308a245ed16a80461f9bb32a35c2d739db723f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 04/56] fix: don't panic on wrapped short row in a table whose
 columns are dropped

---
 src/tbl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..df2a776 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -132,6 +132,7 @@ impl Table {
                     if cells.len() <= ic {
                         //FIXME isn't this already done ?
                         cells.push(FmtComposite::new());
+                        cells_to_add.push(Vec::new());
                         continue;
                     }
                     cells_to_add.push(Vec::new());
-- 
2.43.0


From 6039c2875deb29dffa0e8df3f979c95f46c69b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 05/56] fix: no panic when fitting a composite with zero-width
 chars or empty compounds

---
 src/fit/composite_fit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..bf872c5 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // nothing to gain (may happen with zero-width or wide chars)
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
@@ -276,6 +280,10 @@ impl Fitter {
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
                 let char_infos = str_char_infos(compound.src);
+                if char_infos.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
                 loop {
-- 
2.43.0


From 716545dbbcb0cc4a523384126e5b29261c48d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 06/56] fix: filling again a composite with a smaller width
 reduces its padding

---
 src/composite.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/composite.rs b/src/composite.rs
index 04dbc6a..90ff61f 100644
--- a/src/composite.rs
+++ b/src/composite.rs
@@ -96,6 +96,10 @@ impl<'s> FmtComposite<'s> {
     /// This calls the `fit_width` and `extend_width` methods.
     pub fn fill_width(&mut self, width: usize, align: Alignment, skin: &MadSkin) {
         self.fit_width(width, align, skin);
+        if let Some(ref mut spacing) = self.spacing {
+            // a previous, larger, filling must not be kept
+            spacing.width = spacing.width.min(width);
+        }
         self.extend_width(width, align);
     }
 }
-- 
2.43.0


From d725ac255048e576b382f59a9b8ef511c34fe454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 07/56] fix: CropWriter::queue_char may use the last column and
 replaces tabs

---
 src/fit/crop_writer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..2c37819 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,8 +62,11 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if width <= self.allowed {
             self.allowed -= width;
             cs.queue(self.w, c)?;
         }
@@ -74,7 +77,7 @@ where
             return self.queue_unstyled_str(self.tab_replacement);
         }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if width <= self.allowed {
             self.allowed -= width;
             self.w.queue(Print(c))?;
         }
-- 
2.43.0


From d2a61e368bc068ef316e68019d546db126e93a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 08/56] fix: the scrollbar thumb is always inside the track

---
 src/area.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..9361014 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -131,7 +131,7 @@ where
     let content_height: usize = content_height.into();
     let available_height: usize = available_height.into();
     let top: usize = top.into();
-    if content_height <= available_height {
+    if content_height <= available_height || available_height == 0 {
         return None;
     }
     let mut track_before = scroll * available_height / content_height;
@@ -146,6 +146,10 @@ where
             .min(top + available_height - 2)
             .max(scrollbar_top);
     }
+    // both bounds are inclusive, and the thumb must not leave the track
+    let track_bottom = top + available_height - 1;
+    let scrollbar_top = scrollbar_top.min(track_bottom);
+    let scrollbar_bottom = scrollbar_bottom.min(track_bottom);
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
     let scrollbar_top = scrollbar_top.try_into().unwrap();
-- 
2.43.0


From 165d98bce44bad802d7fa2264314f09b10501c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 09/56] fix: TextView scrollbar isn't wrong for contents of
 more than 65535 lines

---
 src/views/text_view.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..5a032a4 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -83,8 +83,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
-            self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+            self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From a7cc8e890455dadd22a89f7b15dcab8899f0bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 10/56] fix: no overflow on scrolling a text or mad view by a
 huge count

---
 src/views/mad_view.rs  | 2 +-
 src/views/text_view.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..831f848 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -69,7 +69,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 5a032a4..00e9daf 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -142,7 +142,7 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
-- 
2.43.0


From a48588e73bd52b4dc49cb584c9b088cb33cf3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 11/56] fix: resizing a MadView keeps its scroll in the content

---
 src/views/mad_view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 831f848..7c2e8ba 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -56,6 +56,8 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        // the current scroll may be too big for the new height
+        self.try_scroll_lines(0);
     }
     /// set the scroll amount.
     /// lines_count can be negative
-- 
2.43.0


From 4c6afee747f636943821da9906f059a99feb33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 12/56] fix: no panic on rendering a text in an area without
 column

---
 src/skin.rs            | 2 +-
 src/views/text_view.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..1dea5c4 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -363,7 +363,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 00e9daf..4d9f8fa 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -99,7 +99,8 @@ impl<'a, 't> TextView<'a, 't> {
 
     /// display the text in the area, taking the scroll into account.
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
-        let scrollbar = self.scrollbar();
+        // there's no room for the scrollbar in an area without column
+        let scrollbar = self.scrollbar().filter(|_| self.area.width > 0);
         let mut lines = self.text.lines.iter().skip(self.scroll);
         let mut width = self.area.width as usize;
         if scrollbar.is_some() {
-- 
2.43.0


From 086b42bec9ebddcc46c8311a76b8255f4cd218d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 13/56] fix: margins don't push a line out of the available
 width

---
 src/skin.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/skin.rs b/src/skin.rs
index 1dea5c4..0443a61 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -526,6 +526,12 @@ impl MadSkin {
         };
         let (lpi, rpi) = fc.completions(); // inner completion
         let inner_width = fc.spacing.map_or(fc.visible_length, |sp| sp.width);
+        // a line wrapped without margins (because it was for a smaller width) must
+        // not be pushed out of the available width
+        let (left_margin, right_margin) = match outer_width {
+            Some(width) if inner_width + left_margin + right_margin > width => (0, 0),
+            _ => (left_margin, right_margin),
+        };
         let (lpo, rpo) = Spacing::optional_completions(
             ls.align,
             inner_width + left_margin + right_margin,
-- 
2.43.0


From 8170febd28eb52ba149fb9113112139dfd322f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 14/56] fix: set_selection_tail checks the line of the tail,
 not the one of the cursor

---
 src/views/input_field_content.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..a27d99c 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -174,14 +174,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn set_selection_tail(&mut self, sel_tail: Pos) {
-        if sel_tail.y >= self.lines.len() {
-            self.selection_tail = Some(self.end());
-        } else {
-            self.selection_tail = Some(Pos {
-                y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
-            });
-        }
+        self.selection_tail = Some(self.make_valid_pos(sel_tail));
     }
     fn fix_pos(&mut self) {
         self.pos = self.make_valid_pos(self.pos);
-- 
2.43.0


From abe5196f332b1fada2516a15c96f7827e70da8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 15/56] fix: the cursor keeps its column when the current line
 is moved

---
 src/views/input_field_content.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index a27d99c..d7f7adf 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -450,7 +450,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
+        if self.pos.y > 0 {
+            self.lines.swap(self.pos.y - 1, self.pos.y);
             self.pos.y -= 1;
             self.fix_selection();
             true
@@ -461,7 +462,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
+        if self.pos.y + 1 < self.lines.len() {
+            self.lines.swap(self.pos.y, self.pos.y + 1);
             self.pos.y += 1;
             self.fix_selection();
             true
-- 
2.43.0


From 35b2ffc6944c88143aac74d5d9cc01e5ca71d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 16/56] fix: del_char_below doesn't remove the previous new
 line when the last line is empty

---
 src/views/input_field_content.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index d7f7adf..8a5a4c4 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -371,15 +371,7 @@ impl InputFieldContent {
     /// Cursor position is unchanged
     pub fn del_char_below(&mut self) -> bool {
         let line_len = self.current_line().chars.len();
-        if line_len == 0 {
-            if self.lines.len() > 1 {
-                self.lines.remove(self.pos.y);
-                self.fix_selection();
-                true
-            } else {
-                false
-            }
-        } else if self.pos.x < line_len {
+        if self.pos.x < line_len {
             self.lines[self.pos.y].chars.remove(self.pos.x);
             self.fix_selection();
             true
-- 
2.43.0


From 64b27706ef57d0914efb5aa3599d2c3cd3e0fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 17/56] fix: del_selection removes exactly the selected chars

---
 src/views/input_field_content.rs | 51 +++++++++-----------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 8a5a4c4..9fb0ba2 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -387,43 +387,20 @@ impl InputFieldContent {
 
     pub fn del_selection(&mut self) -> bool {
         let Range { min, max } = self.selection();
-        if min.y == max.y {
-            if min.x == max.x {
-                return self.del_char_below();
-            }
-            if max.x == self.lines[min.y].chars.len() {
-                if min.x == 0 {
-                    // we remove the whole line
-                    self.lines.drain(min.y..min.y + 1);
-                    if self.lines.is_empty() {
-                        self.lines.push(Line::default());
-                    }
-                } else {
-                    self.lines[min.y].chars.drain(min.x..);
-                }
-            } else {
-                self.lines[min.y].chars.drain(min.x..max.x + 1);
-            }
-        } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
-                if self.lines.is_empty() {
-                    self.lines.push(Line::default());
-                }
-            }
-        }
+        if min == max {
+            return self.del_char_below();
+        }
+        // the char at max, which may be a new line, is part of the selection
+        let mut end = max;
+        if end.x < self.lines[end.y].chars.len() {
+            end.x += 1;
+        } else if end.y + 1 < self.lines.len() {
+            end = Pos::new(0, end.y + 1);
+        }
+        let mut kept = self.lines[end.y].chars.split_off(end.x);
+        self.lines.drain(min.y + 1..=end.y);
+        self.lines[min.y].chars.truncate(min.x);
+        self.lines[min.y].chars.append(&mut kept);
         self.set_cursor_pos(min);
         self.selection_tail = None;
         true
-- 
2.43.0


From b0ab4e169a59445c49872b08a649198d6d6f9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 18/56] fix: an edition doesn't make a selection become wide

---
 src/views/input_field_content.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 9fb0ba2..4a19371 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -173,6 +173,13 @@ impl InputFieldContent {
     pub fn unselect(&mut self) {
         self.selection_tail = None;
     }
+    /// Forget the selection if it's not wide, so that an edition
+    /// moving the cursor doesn't make it wide
+    fn unselect_if_not_wide(&mut self) {
+        if !self.has_wide_selection() {
+            self.unselect();
+        }
+    }
     pub fn set_selection_tail(&mut self, sel_tail: Pos) {
         self.selection_tail = Some(self.make_valid_pos(sel_tail));
     }
@@ -272,6 +279,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn insert_new_line(&mut self) {
+        self.unselect_if_not_wide();
         let new_line = Line {
             chars: self.lines[self.pos.y].chars.split_off(self.pos.x),
         };
@@ -288,6 +296,7 @@ impl InputFieldContent {
         } else if c == '\r' || c == '\x08' {
             // skipping
         } else {
+            self.unselect_if_not_wide();
             self.lines[self.pos.y].chars.insert(self.pos.x, c);
             self.pos.x += 1;
         }
@@ -328,6 +337,7 @@ impl InputFieldContent {
     }
     /// Remove the char left of the cursor, if any.
     pub fn del_char_left(&mut self) -> bool {
+        self.unselect_if_not_wide();
         if self.pos.x > 0 {
             self.pos.x -= 1;
             if !self.lines[self.pos.y].chars.is_empty() {
@@ -419,6 +429,7 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
+        self.unselect_if_not_wide();
         if self.pos.y > 0 {
             self.lines.swap(self.pos.y - 1, self.pos.y);
             self.pos.y -= 1;
@@ -431,6 +442,7 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
+        self.unselect_if_not_wide();
         if self.pos.y + 1 < self.lines.len() {
             self.lines.swap(self.pos.y, self.pos.y + 1);
             self.pos.y += 1;
@@ -570,6 +582,7 @@ impl InputFieldContent {
         }
     }
     pub fn del_word_left(&mut self) -> bool {
+        self.unselect_if_not_wide();
         if self.pos.x > 0 {
             let chars = &mut self.lines[self.pos.y].chars;
             loop {
@@ -590,6 +603,7 @@ impl InputFieldContent {
     // I'm not yet sure of what should be the right behavior but all changes
     // should be discussed from cases defined as in the unit tests below
     pub fn del_word_right(&mut self) -> bool {
+        self.unselect_if_not_wide();
         let chars = &mut self.lines[self.pos.y].chars;
         if self.pos.x < chars.len() {
             loop {
-- 
2.43.0


From cc69f8a7c6cc633abca1cbf09d0549c597af86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 19/56] fix: InputField::apply_event handles the new line keys

---
 src/views/input_field.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..3954986 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -432,17 +432,7 @@ impl InputField {
     pub fn apply_event(&mut self, event: &Event, is_double_click: bool) -> bool {
         match event {
             Event::Mouse(mouse_event) => self.apply_mouse_event(*mouse_event, is_double_click),
-            Event::Key(KeyEvent {
-                code, modifiers, ..
-            }) if self.focused => {
-                if modifiers.is_empty() {
-                    self.apply_keycode_event(*code, false)
-                } else if *modifiers == KeyModifiers::SHIFT {
-                    self.apply_keycode_event(*code, true)
-                } else {
-                    false
-                }
-            }
+            Event::Key(key) => self.apply_key_combination(*key),
             _ => false,
         }
     }
-- 
2.43.0


From 7b63b6ef423648327e29e2f354bb77f07a950b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 20/56] fix: the cursor of an InputField stays visible when
 moving down

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 3954986..9efae06 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -489,8 +489,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From e0d61254e78da42823fb2c03a1707e9f549c1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 21/56] fix: the cursor of an InputField stays visible after a
 deletion or a click

---
 src/views/input_field.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 9efae06..c120cfb 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -311,17 +311,15 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
@@ -363,8 +361,9 @@ impl InputField {
                     .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
+                self.fix_scroll();
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -400,14 +399,17 @@ impl InputField {
                             self.content.unselect();
                         }
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.fix_scroll();
                     }
                     MouseEventKind::Up(MouseButton::Left) if is_double_click => {
                         self.content.set_cursor_pos(Pos { x, y });
                         self.content.select_word_around();
+                        self.fix_scroll();
                     }
                     MouseEventKind::Drag(MouseButton::Left) => {
                         self.content.make_selection();
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.fix_scroll();
                     }
                     MouseEventKind::ScrollDown => {
                         self.scroll_down();
@@ -418,7 +420,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
-- 
2.43.0


From 3d71b353994868bce8e5482ce6b282e5689fb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 22/56] fix: the cursor of a narrow InputField stays visible

---
 src/views/input_field.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index c120cfb..072f3d7 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -506,16 +506,14 @@ impl InputField {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
+                let wpx = line.char_idx_to_col(pos.x);
                 if width < 4 {
-                    if pos.x < 2 {
-                        self.scroll.x = 0;
-                    } else if pos.x < self.scroll.x + 1 {
-                        self.scroll.x = pos.x - 1;
-                    } else if pos.x > self.scroll.x + width {
-                        self.scroll.x = pos.x + 1 - width;
+                    if wpx < self.scroll.x {
+                        self.scroll.x = wpx;
+                    } else if wpx + 1 > self.scroll.x + width {
+                        self.scroll.x = wpx + 1 - width;
                     }
                 } else {
-                    let wpx = line.char_idx_to_col(pos.x);
                     if wpx < self.scroll.x + 2 {
                         if wpx < 2 {
                             self.scroll.x = 0;
-- 
2.43.0


From af41849e73280d27e0b224216bb422ecf0938487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 23/56] fix: InputField displays in empty areas and with more
 than 65535 lines

---
 src/views/input_field.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 072f3d7..8f27d30 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -472,7 +472,7 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            width = width.saturating_sub(1);
         } else {
             self.scroll.y = 0;
         }
@@ -552,9 +552,11 @@ impl InputField {
         let mut width = self.area.width as usize;
         let pos = self.content.cursor_pos();
         let mut terminal_cursor_pos = None;
-        let scrollbar = self
-            .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+        let scrollbar = if width > 0 {
+            self.area.scrollbar(self.scroll.y, self.content.line_count())
+        } else {
+            None
+        };
         if scrollbar.is_some() {
             width -= 1;
         }
-- 
2.43.0


From 4bd78d070721bafc74ba77a76801feaf9f847d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 24/56] fix: InputField::display_on returns the position of the
 cursor, also in selections and scrolled lines

---
 src/views/input_field.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 8f27d30..9f274a5 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -591,10 +591,12 @@ impl InputField {
                 let mut displayed_width = 0;
                 let mut width = width; // available width for rendering chars
                                        // we don't show ellipsis if the width is 4 or less
+                let mut left = self.area.left; // where the chars start
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
                     width -= 1;
+                    left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     let c = if self.password_mode { '*' } else { *c };
@@ -609,23 +611,25 @@ impl InputField {
                         if !is_last || displayed_width + char_width > width {
                             if self.focused && selection.contains(i, y) {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
-                                // set terminal cursor position
-                                terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
-                                    self.area.top + j,
-                                ));
                             } else {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
+                            if self.focused && pos == Pos::new(i, y) {
+                                // set terminal cursor position
+                                terminal_cursor_pos =
+                                    Some((left + displayed_width as u16, self.area.top + j));
+                            }
                             displayed_width += 1;
                             break;
                         }
                     }
-                    if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                    if self.focused && pos == Pos::new(i, y) {
                         // set terminal cursor position
                         terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                            Some((left + displayed_width as u16, self.area.top + j));
+                    }
+                    if self.focused && selection.contains(i, y) {
+                        self.cursor_style.queue(w, c)?;
                     } else {
                         normal_style.queue(w, c)?;
                     }
@@ -638,7 +642,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From fb51c47a64051411fbb4d2718aadc85ef14448d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 25/56] fix: tabs of an InputField are displayed with the width
 they're counted for

---
 src/views/input_field.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 9f274a5..9893ea2 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -628,10 +628,15 @@ impl InputField {
                         terminal_cursor_pos =
                             Some((left + displayed_width as u16, self.area.top + j));
                     }
-                    if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                    let style = if self.focused && selection.contains(i, y) {
+                        &self.cursor_style
                     } else {
-                        normal_style.queue(w, c)?;
+                        normal_style
+                    };
+                    if c == '\t' {
+                        style.queue(w, TAB_REPLACEMENT)?;
+                    } else {
+                        style.queue(w, c)?;
                     }
                     displayed_width += char_width;
                     if displayed_width >= width {
-- 
2.43.0


From 7bc265b4e685b40c772d9c7ffc6fa7f989b4523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 26/56] fix: chars of an InputField scrolled by half a wide
 char aren't shifted

---
 src/views/input_field.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 9893ea2..f65b27f 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -604,6 +604,13 @@ impl InputField {
                     if skipped_width < width_to_skip {
                         // char hidden by scroll on x
                         skipped_width += char_width;
+                        // a wide char may be only half hidden
+                        while skipped_width > width_to_skip + displayed_width
+                            && displayed_width < width
+                        {
+                            normal_style.queue(w, ' ')?;
+                            displayed_width += 1;
+                        }
                         continue;
                     }
                     if displayed_width + char_width >= width {
-- 
2.43.0


From 862a90c1ac39fc566fb517375c22e19e6ce4c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 27/56] fix: InputField doesn't write out of an area without
 column for the text

---
 src/views/input_field.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index f65b27f..5227c68 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -599,6 +599,9 @@ impl InputField {
                     left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
+                    if width == 0 {
+                        break;
+                    }
                     let c = if self.password_mode { '*' } else { *c };
                     let char_width = InputFieldContent::char_width(c);
                     if skipped_width < width_to_skip {
-- 
2.43.0


From 600ba503d6f1622c2eafeb5c8bee6c5a1efac5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 28/56] fix: in password mode an InputField is scrolled and
 clicked according to its stars

---
 src/views/input_field.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 5227c68..81d7684 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -357,9 +357,7 @@ impl InputField {
                 let y = ((y - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let x = self.col_to_char_idx(line, (x - self.area.left) as usize + self.scroll.x);
                 self.content.set_cursor_pos(Pos { x, y });
                 self.fix_scroll();
             } else {
@@ -384,9 +382,8 @@ impl InputField {
                 let y = ((row - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let x =
+                    self.col_to_char_idx(line, (column - self.area.left) as usize + self.scroll.x);
                 // We handle the selection click on down, so that it's set at the
                 // start of drag.
                 match kind {
@@ -466,6 +463,25 @@ impl InputField {
         }
     }
 
+    /// Return the column at which the char is displayed, without scroll:
+    /// in password mode all chars are replaced by stars
+    fn char_idx_to_col(&self, line: &input_field_content::Line, idx: usize) -> usize {
+        if self.password_mode {
+            idx
+        } else {
+            line.char_idx_to_col(idx)
+        }
+    }
+
+    fn col_to_char_idx(&self, line: &input_field_content::Line, col: usize) -> usize {
+        let len = line.chars.len();
+        if self.password_mode {
+            col.min(len)
+        } else {
+            line.col_to_char_idx(col).unwrap_or(len)
+        }
+    }
+
     fn fix_scroll(&mut self) {
         let mut width = self.area.width as usize;
         let height = self.area.height as usize;
@@ -499,14 +515,14 @@ impl InputField {
         }
 
         let line = self.content.current_line();
-        let line_width = line.width();
+        let line_width = self.char_idx_to_col(line, line.chars.len());
         if line_width < width {
             self.scroll.x = 0;
         } else {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
-                let wpx = line.char_idx_to_col(pos.x);
+                let wpx = self.char_idx_to_col(line, pos.x);
                 if width < 4 {
                     if wpx < self.scroll.x {
                         self.scroll.x = wpx;
-- 
2.43.0


From 5fb36c70b9bea2855b0be85f1fd14bf3f764b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 29/56] fix: half hidden wide char filling an InputField
 doesn't push an ellipsis out

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 81d7684..86efc9c 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -615,7 +615,7 @@ impl InputField {
                     left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
-                    if width == 0 {
+                    if displayed_width >= width {
                         break;
                     }
                     let c = if self.password_mode { '*' } else { *c };
-- 
2.43.0


From da633f47314852ebc90d1954ead66d385409b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 30/56] fix: the scroll of a filtered ListView is a number of
 displayed rows

---
 src/views/list_view.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..8d6ab5f 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -290,16 +290,20 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut rows = self
+            .rows
+            .iter()
+            .enumerate()
+            .filter(|(_, row)| row.displayed)
+            .skip(self.scroll);
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
-            loop {
-                if row_idx == self.rows.len() {
+            match rows.next() {
+                None => {
                     queue!(w, Clear(ClearType::UntilNewLine))?;
-                    break;
                 }
-                if self.rows[row_idx].displayed {
+                Some((row_idx, row)) => {
                     let selected = Some(row_idx) == self.selection;
                     for (col_idx, col) in self.columns.iter().enumerate() {
                         if col_idx != 0 {
@@ -308,7 +312,7 @@ impl<'t, T> ListView<'t, T> {
                             }
                             vbar.queue(w)?;
                         }
-                        let cell = (col.extract)(&self.rows[row_idx].data);
+                        let cell = (col.extract)(&row.data);
                         if selected {
                             let mut style = cell.style.clone();
                             style.set_bg(self.selection_background);
@@ -319,10 +323,7 @@ impl<'t, T> ListView<'t, T> {
                                 .write_counted_str(w, &cell.con, cell.width, cell.style)?;
                         }
                     }
-                    row_idx += 1;
-                    break;
                 }
-                row_idx += 1;
             }
             if let Some((sctop, scbottom)) = scrollbar {
                 queue!(w, MoveTo(sx, self.area.top + y))?;
@@ -383,14 +384,12 @@ impl<'t, T> ListView<'t, T> {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
-            for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
-                if self.rows[i].displayed {
-                    self.selection = Some(i);
-                    self.make_selection_visible();
-                    return;
-                }
-            }
+            // the first displayed row which is on screen, or else the first displayed one
+            let mut displayed = (0..self.rows.len()).filter(|&i| self.rows[i].displayed);
+            let first = displayed.clone().next();
+            self.selection = displayed.nth(self.scroll).or(first);
+            self.make_selection_visible();
+            return;
         }
         for i in 0..self.rows.len() {
             let delta_idx = if up { self.rows.len() - 1 - i } else { i + 1 };
@@ -434,6 +433,11 @@ impl<'t, T> ListView<'t, T> {
             return; // there's no scroll
         }
         if let Some(sel) = self.selection {
+            if !self.rows[sel].displayed {
+                return; // the selected row has been filtered out
+            }
+            // the scroll is a number of displayed rows
+            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-- 
2.43.0


From d46dfd1e1535a087bd1a49b67ca11ed3805bc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 31/56] fix: no overflow on scrolling a ListView which fits its
 area, or by a huge count

---
 src/views/list_view.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 8d6ab5f..55537bb 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -361,22 +361,27 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
                 self.scroll - lines_count
             };
         } else {
-            self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+            let tbody_height = self.tbody_height() as usize;
+            let max_scroll = if self.displayed_rows_count > tbody_height {
+                self.displayed_rows_count - tbody_height + 1
+            } else {
+                0
+            };
+            self.scroll = (self.scroll + lines_count as usize).min(max_scroll);
         }
         self.make_selection_visible();
     }
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.tbody_height())))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From 933a479c03ddcc47f40a371452c11790ee43e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 32/56] fix: the selection of a ListView is made visible in
 small areas too

---
 src/views/list_view.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 55537bb..e71db62 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -444,9 +444,10 @@ impl<'t, T> ListView<'t, T> {
             // the scroll is a number of displayed rows
             let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
-                self.scroll = if sel > 2 { sel - 2 } else { 0 };
+                // in a small body, there's not always room for the margin
+                self.scroll = sel.saturating_sub(tbody_height.saturating_sub(1).min(2));
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = sel + 1 + tbody_height.saturating_sub(1).min(1) - tbody_height;
             }
         }
     }
-- 
2.43.0


From 8bc9899cba0cd1c850433ef6bd377612db482f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 33/56] fix: the scrollbar of a ListView is in its area,
 wherever the area is

---
 src/views/list_view.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index e71db62..9285c2a 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -163,10 +163,10 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
-            self.area.top,
+            self.area.top + 2, // the titles aren't scrolled
         )
     }
     pub fn add_row(&mut self, data: T) {
@@ -246,7 +246,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = (self.area.left + self.area.width).saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
@@ -326,8 +326,8 @@ impl<'t, T> ListView<'t, T> {
                 }
             }
             if let Some((sctop, scbottom)) = scrollbar {
-                queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y;
+                queue!(w, MoveTo(sx, y))?;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From a1043245d76abb37ba697b1f0d2dc8a2341e0398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 34/56] fix: ListView writes its whole area and nothing else

---
 src/views/list_view.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 9285c2a..d53762b 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -8,10 +8,6 @@ use {
                 Color,
                 SetBackgroundColor,
             },
-            terminal::{
-                Clear,
-                ClearType,
-            },
         },
         errors::Result,
         gray,
@@ -20,6 +16,7 @@ use {
         CompoundStyle,
         MadSkin,
         Spacing,
+        SPACE_FILLING,
     },
     std::{
         cmp::Ordering,
@@ -251,6 +248,14 @@ impl<'t, T> ListView<'t, T> {
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
         let hbar = self.skin.table.compound_style.style_char('─');
+        // columns don't always take the whole width, what remains must be cleared
+        let columns_width = self
+            .columns
+            .iter()
+            .map(|c| c.spacing.width)
+            .sum::<usize>()
+            + self.columns.len().saturating_sub(1);
+        let remain = usize::from(self.area.width).saturating_sub(columns_width);
         // title line
         queue!(w, MoveTo(self.area.left, self.area.top))?;
         for (title_idx, title) in self.titles.iter().enumerate() {
@@ -274,6 +279,7 @@ impl<'t, T> ListView<'t, T> {
                 &self.skin.headers[0].compound_style,
             )?;
         }
+        SPACE_FILLING.queue_unstyled(w, remain)?;
         // separator line
         queue!(w, MoveTo(self.area.left, self.area.top + 1))?;
         for (title_idx, title) in self.titles.iter().enumerate() {
@@ -289,6 +295,7 @@ impl<'t, T> ListView<'t, T> {
                 }
             }
         }
+        SPACE_FILLING.queue_unstyled(w, remain)?;
         // rows, maybe scrolled
         let mut rows = self
             .rows
@@ -301,7 +308,7 @@ impl<'t, T> ListView<'t, T> {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             match rows.next() {
                 None => {
-                    queue!(w, Clear(ClearType::UntilNewLine))?;
+                    SPACE_FILLING.queue_unstyled(w, usize::from(self.area.width))?;
                 }
                 Some((row_idx, row)) => {
                     let selected = Some(row_idx) == self.selection;
@@ -323,6 +330,7 @@ impl<'t, T> ListView<'t, T> {
                                 .write_counted_str(w, &cell.con, cell.width, cell.style)?;
                         }
                     }
+                    SPACE_FILLING.queue_unstyled(w, remain)?;
                 }
             }
             if let Some((sctop, scbottom)) = scrollbar {
-- 
2.43.0


From a6ab98b99a64ff6b63f259a4caed3666324167e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 35/56] fix: adding a row in a sorted ListView doesn't change
 what row is selected

---
 src/views/list_view.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index d53762b..c84eacd 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -178,9 +178,18 @@ impl<'t, T> ListView<'t, T> {
         if stick_to_bottom {
             self.scroll_to_bottom();
         }
-        self.rows.push(Row { data, displayed });
-        if let Some(row_order) = &self.row_order {
-            self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
+        match &self.row_order {
+            Some(row_order) => {
+                self.rows.push(Row { data, displayed });
+                // the selected row stays selected
+                let mut order: Vec<usize> = (0..self.rows.len()).collect();
+                order.sort_by(|&a, &b| row_order(&self.rows[a].data, &self.rows[b].data));
+                if let Some(sel) = self.selection {
+                    self.selection = order.iter().position(|&i| i == sel);
+                }
+                self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
+            }
+            None => self.rows.push(Row { data, displayed }),
         }
     }
     /// remove all rows (and selection).
-- 
2.43.0


From dbb8b53e16c217d9f6fc2959cfffb0053781b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 36/56] fix: Spacing and ListView cells count columns, not
 chars

---
 src/spacing.rs         | 22 ++++++++++------------
 src/views/list_view.rs |  5 +++--
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/spacing.rs b/src/spacing.rs
index 999a6c7..bd498d0 100644
--- a/src/spacing.rs
+++ b/src/spacing.rs
@@ -2,8 +2,10 @@ use {
     crate::{
         compound_style::CompoundStyle,
         errors::Result,
+        StrFit,
     },
     minimad::Alignment,
+    unicode_width::UnicodeWidthStr,
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -12,13 +14,6 @@ pub struct Spacing {
     pub align: Alignment,
 }
 
-fn truncate(s: &str, max_chars: usize) -> &str {
-    match s.char_indices().nth(max_chars) {
-        None => s,
-        Some((idx, _)) => &s[..idx],
-    }
-}
-
 impl Spacing {
     /// compute the number of chars to add left and write of inner_width
     /// to fill outer_width
@@ -55,6 +50,8 @@ impl Spacing {
     pub const fn completions_for(&self, inner_width: usize) -> (usize, usize) {
         Spacing::completions(self.align, inner_width, self.width)
     }
+    /// write the string, whose width in columns is `str_width`, in exactly
+    /// the width of the spacing
     pub fn write_counted_str<W>(
         &self,
         w: &mut W,
@@ -66,8 +63,11 @@ impl Spacing {
         W: std::io::Write,
     {
         if str_width >= self.width {
-            // we must truncate
-            let s = truncate(s, self.width);
+            // we must truncate (a removed wide char may let one column to complete)
+            let (mut s, str_width) = StrFit::make_string(s, self.width);
+            for _ in str_width..self.width {
+                s.push(' ');
+            }
             style.queue_str(w, s)?;
         } else {
             // we must complete with spaces
@@ -85,12 +85,10 @@ impl Spacing {
         }
         Ok(())
     }
-    // FIXME use the number of chars instead of their real width,
-    // the crop writer should be used when wide characters are expected
     pub fn write_str<W>(&self, w: &mut W, s: &str, style: &CompoundStyle) -> Result<()>
     where
         W: std::io::Write,
     {
-        self.write_counted_str(w, s, s.chars().count(), style)
+        self.write_counted_str(w, s, s.width(), style)
     }
 }
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index c84eacd..f17f4ff 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -25,12 +25,13 @@ use {
             Write,
         },
     },
+    unicode_width::UnicodeWidthStr,
 };
 
 pub struct ListViewCell<'t> {
     con: String,
     style: &'t CompoundStyle,
-    width: usize, // length of content in chars
+    width: usize, // width of content in columns
 }
 
 pub struct Title {
@@ -75,7 +76,7 @@ pub struct ListView<'t, T> {
 
 impl<'t> ListViewCell<'t> {
     pub fn new(con: String, style: &'t CompoundStyle) -> Self {
-        let width = con.chars().count();
+        let width = con.width();
         Self { con, style, width }
     }
 }
-- 
2.43.0


From c7204f62a1f8f2d2b946344e130578cec3b952b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 37/56] fix: no remaining scroll in a ListView whose area is
 now high enough

---
 src/views/list_view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index f17f4ff..19ffc92 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -453,7 +453,8 @@ impl<'t, T> ListView<'t, T> {
     pub fn make_selection_visible(&mut self) {
         let tbody_height = self.tbody_height() as usize;
         if self.displayed_rows_count <= tbody_height {
-            return; // there's no scroll
+            self.scroll = 0; // there's no scroll (anymore, if the area was smaller)
+            return;
         }
         if let Some(sel) = self.selection {
             if !self.rows[sel].displayed {
-- 
2.43.0


From e7122652c403eeab5dd0e00742d11a9f953fad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 38/56] fix: names of dark colors are parsed as dark colors

---
 src/parse/parse_color.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..7b1fc36 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,20 +80,22 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
+        // the names of dark colors contain other color names, so they're checked first
         "darkblue"i => Color::DarkBlue,
         "darkcyan"i => Color::DarkCyan,
         "darkgreen"i => Color::DarkGreen,
+        "darkgrey"i => Color::DarkGrey,
         "darkmagenta"i => Color::DarkMagenta,
         "darkred"i => Color::DarkRed,
+        "darkyellow"i => Color::DarkYellow,
+        "black"i => Color::AnsiValue(16),
+        "blue"i => Color::Blue,
+        "cyan"i => Color::Cyan,
         "green"i => Color::Green,
         "grey"i => Color::Grey,
         "magenta"i => Color::Magenta,
         "red"i => Color::Red,
         "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
         "white"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
-- 
2.43.0


From 0db634bbbfc5d8f68f97eb0858fe8502d6d0f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 39/56] fix: the written black, white and reset colors are
 parsed back

---
 src/parse/parse_color.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 7b1fc36..5d3d4e1 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -19,8 +19,9 @@ pub enum ParseColorError {
 
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
-        Color::Reset => Ok(()),
-        Color::Black => write!(f, "Black"),
+        Color::Reset => write!(f, "Reset"),
+        // "black" and "white" are parsed as the extreme colors of the ANSI cube
+        Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
         Color::Red => write!(f, "Red"),
         Color::DarkRed => write!(f, "DarkRed"),
@@ -34,7 +35,7 @@ pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
         Color::DarkMagenta => write!(f, "DarkMagenta"),
         Color::Cyan => write!(f, "Cyan"),
         Color::DarkCyan => write!(f, "DarkCyan"),
-        Color::White => write!(f, "White"),
+        Color::White => write!(f, "ansi(15)"),
         Color::Grey => write!(f, "Grey"),
         Color::Rgb { r, g, b } => write!(f, "rgb({r}, {g}, {b})"),
         Color::AnsiValue(code) => write!(f, "ansi({code})"),
@@ -80,6 +81,7 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
+        "^reset$"i => Color::Reset,
         // the names of dark colors contain other color names, so they're checked first
         "darkblue"i => Color::DarkBlue,
         "darkcyan"i => Color::DarkCyan,
-- 
2.43.0


From 9ce559bbeb9c526ff2bbd09a3a226c68f8489759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 40/56] fix: blink attributes aren't lost when a skin is
 serialized

---
 src/compound_style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..22c7139 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -36,6 +36,8 @@ pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::CrossedOut,
     Attribute::Encircled,
     Attribute::OverLined,
+    Attribute::SlowBlink,
+    Attribute::RapidBlink,
 ];
 
 /// A style which may be applied to a compound
-- 
2.43.0


From e89678b53482d73e73bdcb364baffe9ff177c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 41/56] fix: a styled digit, space or parenthesis is parsed
 back

---
 src/parse/parse_styled_char.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parse_styled_char.rs b/src/parse/parse_styled_char.rs
index 0ed3155..9882a1c 100644
--- a/src/parse/parse_styled_char.rs
+++ b/src/parse/parse_styled_char.rs
@@ -8,6 +8,13 @@ pub fn parse_styled_char(
     s: &str,
     default_nude_char: char,
 ) -> Result<StyledChar, ParseStyleTokenError> {
+    // the char, when it comes first, may be one which couldn't be recognized
+    // as a char token: a digit, a space, a parenthesis
+    let mut chars = s.chars();
+    if let (Some(nude_char), None | Some(' ')) = (chars.next(), chars.clone().next()) {
+        let tokens = parse_style_tokens(chars.as_str())?;
+        return Ok(StyledChar::new(tokens.as_slice().into(), nude_char));
+    }
     let tokens = parse_style_tokens(s)?;
     let style = tokens.as_slice().into();
     let nude_char = tokens
-- 
2.43.0


From 17bb1f128e2f622354ac6362fd168c207fde151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 42/56] fix: the margin 65536 isn't written as 0

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..2dfbab7 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(65535) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(65535) as u16));
         }
     }
 }
-- 
2.43.0


From c37923a2fff34d3685d5d098d9fd25f0ce9ad280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 43/56] fix: write_style_tokens separates the tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..108d6f1 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From 783c18619e4c80251b1dc9d86273e1ee8fdc6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 44/56] fix: scrollbars with attributes or without color are
 completely serialized

---
 src/serde/serde_scrollbar_style.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..b510c3d 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -28,14 +28,12 @@ pub enum ScrollBarStyleDef {
 
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
-        let simple = sc.track.nude_char() == sc.thumb.nude_char()
-            && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
-        if simple {
-            Self::Simple(StyledChar::new(
-                CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-                sc.track.nude_char(),
-            ))
+        let simple = StyledChar::new(
+            CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
+            sc.track.nude_char(),
+        );
+        if ScrollBarStyle::from(simple.clone()) == *sc {
+            Self::Simple(simple)
         } else {
             Self::Rich {
                 track: sc.track.clone(),
-- 
2.43.0


From e0d4d7e2312da72df2791c53ad012391fc4bdeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 45/56] fix: the list items indentation mode isn't lost when a
 skin is serialized

---
 src/list_indentation.rs | 17 +++++++++++++++++
 src/serde/serde_skin.rs | 13 +++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/list_indentation.rs b/src/list_indentation.rs
index a134965..87ea29c 100644
--- a/src/list_indentation.rs
+++ b/src/list_indentation.rs
@@ -10,3 +10,20 @@ pub enum ListItemsIndentationMode {
     #[default]
     Block,
 }
+
+impl ListItemsIndentationMode {
+    /// return a key which could be used in by_key.
+    pub const fn key(self) -> &'static str {
+        match self {
+            Self::FirstLineOnly => "first_line_only",
+            Self::Block => "block",
+        }
+    }
+    pub fn by_key(key: &str) -> Option<Self> {
+        match key {
+            "first_line_only" => Some(Self::FirstLineOnly),
+            "block" => Some(Self::Block),
+            _ => None,
+        }
+    }
+}
diff --git a/src/serde/serde_skin.rs b/src/serde/serde_skin.rs
index d45faae..fc19e1d 100644
--- a/src/serde/serde_skin.rs
+++ b/src/serde/serde_skin.rs
@@ -6,6 +6,7 @@ use {
         parse_line_style,
         parse_styled_char,
         LineStyle,
+        ListItemsIndentationMode,
         MadSkin,
         TableBorderChars,
         ATTRIBUTES,
@@ -149,6 +150,13 @@ impl<'de> de::Deserialize<'de> for MadSkin {
                             }
                         }
 
+                        "list_items_indentation_mode" | "list-items-indentation-mode" => {
+                            let key = map.next_value::<String>()?;
+                            if let Some(mode) = ListItemsIndentationMode::by_key(&key) {
+                                skin.list_items_indentation_mode = mode;
+                            }
+                        }
+
                         _ => {
                             let _ = map.next_value::<String>()?;
                             println!("unknown key: {key}");
@@ -200,6 +208,11 @@ impl Serialize for MadSkin {
             skin.serialize_entry("table_border_chars", key)?;
         }
 
+        skin.serialize_entry(
+            "list_items_indentation_mode",
+            self.list_items_indentation_mode.key(),
+        )?;
+
         skin.end()
     }
 }
-- 
2.43.0


From ae9e0646c5c17d6e30a117dcd4e44784edf10bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 46/56] fix: blending a style blends its background, and its
 foreground once

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 22c7139..8c76409 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -88,7 +88,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From 328e2ac3b6cededa24e946aabaab6c130b66849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 47/56] fix: blending with a weight of 0 lets the style
 unchanged

---
 src/compound_style.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 8c76409..ef59519 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -83,6 +83,9 @@ impl CompoundStyle {
     /// The `dest` color can be for example a [crossterm] color or a [coolor] one.
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, dest: C, weight: f32) {
         debug_assert!(weight >= 0.0 && weight <= 1.0);
+        if weight == 0.0 {
+            return; // blending isn't neutral, as it converts the colors to RGB
+        }
         let dest: coolor::Color = dest.into();
         if let Some(fg) = self.object_style.foreground_color.as_mut() {
             let src: coolor::Color = (*fg).into();
-- 
2.43.0


From 3fb62e5542f1eec7cfcd6effc643379511df7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 48/56] fix: a blended styled char is displayed with the
 blended colors

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From 3d6a9985b48afbd279ef713a8fe3fc618fa37601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 49/56] fix: asking a question doesn't loop forever when the
 input is closed

---
 src/ask.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..67f8660 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -82,7 +82,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let read = io::stdin().read_line(&mut input)?;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +94,10 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if read == 0 {
+                // there won't be any other answer
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From c5e046f2deb1e46c9b2f69376e2b5ed0b8ecc855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 50/56] fix: TblFit tells that a single too wide column is
 reduced

---
 src/fit/tbl_fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 8bb386f..51b2690 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -91,7 +91,7 @@ impl TblFit {
         }
         if self.cols.len() == 1 {
             return TblFitResult {
-                reduced: false,
+                reduced: true,
                 col_widths: vec![self.available_sum_width],
             };
         }
-- 
2.43.0


From bbca70b7067d2d7a1945f7207b523db93f20d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 51/56] fix: the visible length of a line includes its spacing
 and the borders of the table

---
 src/line.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 20e3f72..b96b24a 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -42,8 +42,14 @@ impl<'s> FmtLine<'s> {
     }
     pub fn visible_length(&self) -> usize {
         match self {
-            FmtLine::Normal(composite) => composite.visible_length,
-            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
+            FmtLine::Normal(composite) => composite
+                .spacing
+                .map_or(composite.visible_length, |sp| sp.width),
+            FmtLine::TableRow(row) => {
+                1 + row.cells.iter().fold(0, |s, c| {
+                    s + c.spacing.map_or(c.visible_length, |sp| sp.width) + 1
+                })
+            }
             FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
-- 
2.43.0


From 54c70b436a5f9411d12b9e748a503950d2cc8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 52/56] fix: a rect isn't drawn out of an area of less than 2
 columns

---
 src/rect.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4ec1963..d876bf7 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -100,6 +100,10 @@ impl<'s> Rect<'s> {
         let area = &self.area;
         let cs = &self.colors;
         let bs = &self.border_style;
+        if area.width == 0 || area.height == 0 {
+            return Ok(());
+        }
+        let has_right = area.width > 1; // or there's only room for the left border
         let mut y = area.top;
         w.queue(cursor::MoveTo(area.left, y))?;
         cs.queue(w, bs.top_left)?;
@@ -108,7 +112,9 @@ impl<'s> Rect<'s> {
                 cs.queue(w, bs.top)?;
             }
         }
-        cs.queue(w, bs.top_right)?;
+        if has_right {
+            cs.queue(w, bs.top_right)?;
+        }
         y += 1;
         while y < area.top + area.height - 1 {
             w.queue(cursor::MoveTo(area.left, y))?;
@@ -120,7 +126,9 @@ impl<'s> Rect<'s> {
             } else {
                 w.queue(cursor::MoveTo(area.left + area.width - 1, y))?;
             }
-            cs.queue(w, bs.right)?;
+            if has_right {
+                cs.queue(w, bs.right)?;
+            }
             y += 1;
         }
         w.queue(cursor::MoveTo(area.left, area.bottom() - 1))?;
@@ -130,7 +138,9 @@ impl<'s> Rect<'s> {
                 cs.queue(w, bs.bottom)?;
             }
         }
-        cs.queue(w, bs.bottom_right)?;
+        if has_right {
+            cs.queue(w, bs.bottom_right)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From e6f3169f9f7182a61b3e893ca73e14654c38cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 53/56] fix: the raw mode isn't left enabled when an event
 source can't be created

---
 src/events/event_source.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/events/event_source.rs b/src/events/event_source.rs
index 3fbe6df..b411a32 100644
--- a/src/events/event_source.rs
+++ b/src/events/event_source.rs
@@ -142,7 +142,14 @@ impl EventSource {
         let mut combiner = Combiner::default();
         terminal::enable_raw_mode()?;
         let is_combining_keys = if options.combine_keys {
-            combiner.enable_combining()?
+            match combiner.enable_combining() {
+                Ok(is_combining_keys) => is_combining_keys,
+                Err(e) => {
+                    // there will be no event source to restore the terminal on drop
+                    let _ = terminal::disable_raw_mode();
+                    return Err(e.into());
+                }
+            }
         } else {
             false
         };
-- 
2.43.0


From 6a4c5b6444fee2b482f937e0fef1abb2085f56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 54/56] fix: overwriting a style takes the underline color too

---
 src/compound_style.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index ef59519..9792ca8 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -161,6 +161,10 @@ impl CompoundStyle {
             .object_style
             .background_color
             .or(self.object_style.background_color);
+        self.object_style.underline_color = other
+            .object_style
+            .underline_color
+            .or(self.object_style.underline_color);
         self.object_style
             .attributes
             .extend(other.object_style.attributes);
-- 
2.43.0


From e159fd97c747ca0010e23be5e4117d45e60b198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 55/56] fix: the computation of the scrollbar doesn't overflow

---
 src/area.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/area.rs b/src/area.rs
index 9361014..5e2d649 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -134,14 +134,17 @@ where
     if content_height <= available_height || available_height == 0 {
         return None;
     }
-    let mut track_before = scroll * available_height / content_height;
+    // in u128 because the products may be over the max usize
+    let scaled = |n: usize| (n as u128 * available_height as u128 / content_height as u128) as usize;
+    let scroll = scroll.min(content_height);
+    let mut track_before = scaled(scroll);
     if track_before == 0 && scroll > 0 {
         track_before = 1;
     }
-    let thumb_height = available_height * available_height / content_height;
+    let thumb_height = scaled(available_height);
     let scrollbar_top = top + track_before;
     let mut scrollbar_bottom = scrollbar_top + thumb_height;
-    if scroll + available_height < content_height && available_height > 3 {
+    if scroll < content_height - available_height && available_height > 3 {
         scrollbar_bottom = scrollbar_bottom
             .min(top + available_height - 2)
             .max(scrollbar_top);
-- 
2.43.0


From 43d96ca4a730b6cd3eb489de317d90b4b623f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 56/56] fix: MadView::write flushes stdout, as other views do

---
 src/views/mad_view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7c2e8ba..09d7ce7 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -34,7 +34,10 @@ impl MadView {
     /// render the markdown in the area, taking the scroll into
     /// account
     pub fn write(&self) -> Result<()> {
-        self.write_on(&mut std::io::stdout())
+        let mut stdout = std::io::stdout();
+        self.write_on(&mut stdout)?;
+        stdout.flush()?;
+        Ok(())
     }
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
         let text = self.skin.area_text(&self.markdown, &self.area);
-- 
2.43.0

