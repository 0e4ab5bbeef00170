From c331eadb6e7baf22aa4700987ee0ee47d9260e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 01/21] fix: StrBidiClass::has_ltr looked for right-to-left
 characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From e007842a4c2703d25d8e4a915a0884e99370310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 02/21] fix: Ord of Age disagreed with its PartialOrd

---
 unic/ucd/age/src/age.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..1a09162 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -85,11 +85,13 @@ impl Age {
 
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
-        match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
-        }
+        Some(self.cmp(other))
+    }
+}
+
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        self.0.cmp(&other.0).reverse()
     }
 }
 
-- 
2.43.0


From d0ceed2f3da89a68d665b20ef1b3b076daa8ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 03/21] fix: compose_syllable swallowed U+11A7, which is not a
 trailing jamo

---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From 3dd9b2ed9a8a0c95b81d8bc82d48b6ab8343f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 04/21] fix: decompose_syllable made invalid chars out of
 anything but a syllable

---
 unic/ucd/hangul/src/hangul.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index c1cbcab..eca730b 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -33,6 +33,8 @@ pub fn is_syllable(ch: char) -> bool {
 }
 
 /// Decompose a precomposed Hangul syllable
+///
+/// Any other character has no Hangul decomposition and is passed on as it is.
 // FIXME: This is a workaround, we should use `F` instead of `&mut F`
 #[allow(unsafe_code)]
 #[inline]
@@ -40,6 +42,11 @@ pub fn decompose_syllable<F>(syllable: char, f: &mut F)
 where
     F: FnMut(char),
 {
+    if !is_syllable(syllable) {
+        (*f)(syllable);
+        return;
+    }
+
     let si = syllable as u32 - S_BASE;
 
     let li = si / N_COUNT;
-- 
2.43.0


From 0e73e086c13dbae4dfcee911a48935fb62ab0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 05/21] fix: parallel iteration over a CharRange above the
 surrogates lost most of it

---
 unic/char/range/src/par_iter.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..a30fbeb 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,13 +50,14 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
-        let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
-            high - SKIP_LENGTH
-        } else {
-            high
-        })
+        let compact = |ch: char| {
+            if ch >= AFTER_SURROGATE {
+                ch as u32 - SKIP_LENGTH
+            } else {
+                ch as u32
+            }
+        };
+        compact(self.low)..(compact(self.high) + 1)
     }
 }
 
-- 
2.43.0


From f741202761d6667776adaf24f145c22b2c79cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 06/21] fix: word bounds joined a second emoji modifier to the
 first

---
 unic/segment/src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..c2b065b 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -353,7 +353,7 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => FormatExtend(AcceptNone),
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 446a9656b29d6ff09f85a3d6fbbe52bdcb595738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 07/21] fix: backward word bounds joined ZWJ to an emoji base,
 against WB3c

---
 unic/segment/src/word.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index c2b065b..fa9057c 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -580,7 +580,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBaseGAZ => Zwj,
+                    WB::EBase => break, // nothing joins before it
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 0d543b37266a3f896e43f156eded17bfad05a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 08/21] fix: word bounds forgot their state after ZWJ and an
 emoji joined by WB3c

---
 unic/segment/src/word.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index fa9057c..9a2506d 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -229,15 +229,20 @@ impl<'a> Iterator for WordBounds<'a> {
             // state enum; the state enum represents the last non-zwj state encountered.
             // When prev_zwj is true, for the purposes of WB3c, we are in the Zwj state,
             // however we are in the previous state for the purposes of all other rules.
-            if prev_zwj {
-                match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
-                        state = Emoji;
-                        continue;
-                    }
+            if prev_zwj && (cat == WB::GlueAfterZwj || cat == WB::EBaseGAZ) {
+                match state {
+                    // not what we were looking for, rewind (in if statement below)
+                    FormatExtend(RequireLetter)
+                    | FormatExtend(RequireHLetter)
+                    | FormatExtend(RequireNumeric) => break,
                     _ => (),
                 }
+                state = if cat == WB::EBaseGAZ {
+                    Emoji
+                } else {
+                    FormatExtend(AcceptNone)
+                };
+                continue;
             }
             // Don't use `continue` in this match without updating `cat`
             state = match state {
-- 
2.43.0


From ea86dd7d3101a5643f8378bbfdfa244b875980c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 09/21] fix: grapheme cursor given chunks panicked or misjudged
 the text before the chunk

---
 unic/segment/src/grapheme.rs | 76 ++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 42 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..eb8298a 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -452,17 +452,15 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
-            let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
-                self.decide(false); // GB9b
-                return;
-            }
-        }
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            _ => {
+                // The codepoint before the cursor was what was missing
+                let ch = chunk.chars().rev().next().unwrap();
+                self.cat_before = Some(GCB::of(ch));
+                self.handle_pair(chunk, chunk_start);
+            }
         }
     }
 
@@ -474,11 +472,6 @@ impl GraphemeCursor {
         };
     }
 
-    fn decision(&mut self, is_break: bool) -> Result<bool, GraphemeIncomplete> {
-        self.decide(is_break);
-        Ok(is_break)
-    }
-
     fn is_boundary_result(&self) -> Result<bool, GraphemeIncomplete> {
         if self.state == GraphemeState::Break {
             Ok(true)
@@ -491,6 +484,30 @@ impl GraphemeCursor {
         }
     }
 
+    /// Decide from the categories around the cursor and, where these need it, the text before.
+    fn handle_pair(&mut self, chunk: &str, chunk_start: usize) {
+        match check_pair(self.cat_before.unwrap(), self.cat_after.unwrap()) {
+            PairResult::NotBreak => self.decide(false),
+            PairResult::Break => self.decide(true),
+            PairResult::Extended => {
+                let is_extended = self.is_extended;
+                self.decide(!is_extended)
+            }
+            PairResult::Regional => {
+                if let Some(ris_count) = self.ris_count {
+                    self.decide((ris_count % 2) == 0);
+                } else {
+                    self.state = GraphemeState::Regional;
+                    self.handle_regional(chunk, chunk_start);
+                }
+            }
+            PairResult::Emoji => {
+                self.state = GraphemeState::Emoji;
+                self.handle_emoji(chunk, chunk_start);
+            }
+        }
+    }
+
     fn handle_regional(&mut self, chunk: &str, chunk_start: usize) {
         let mut ris_count = self.ris_count.unwrap_or(0);
         for ch in chunk.chars().rev() {
@@ -581,41 +598,16 @@ impl GraphemeCursor {
             let ch = chunk[offset_in_chunk..].chars().next().unwrap();
             self.cat_after = Some(GCB::of(ch));
         }
-        if self.offset == chunk_start {
-            let mut need_pre_context = true;
-            match self.cat_after.unwrap() {
-                GCB::RegionalIndicator => self.state = GraphemeState::Regional,
-                GCB::EModifier => self.state = GraphemeState::Emoji,
-                _ => need_pre_context = self.cat_before.is_none(),
-            }
-            if need_pre_context {
+        if self.cat_before.is_none() {
+            if self.offset == chunk_start {
                 self.pre_context_offset = Some(chunk_start);
                 return Err(GraphemeIncomplete::PreContext(chunk_start));
             }
-        }
-        if self.cat_before.is_none() {
             let ch = chunk[..offset_in_chunk].chars().rev().next().unwrap();
             self.cat_before = Some(GCB::of(ch));
         }
-        match check_pair(self.cat_before.unwrap(), self.cat_after.unwrap()) {
-            PairResult::NotBreak => self.decision(false),
-            PairResult::Break => self.decision(true),
-            PairResult::Extended => {
-                let is_extended = self.is_extended;
-                self.decision(!is_extended)
-            }
-            PairResult::Regional => {
-                if let Some(ris_count) = self.ris_count {
-                    return self.decision((ris_count % 2) == 0);
-                }
-                self.handle_regional(&chunk[..offset_in_chunk], chunk_start);
-                self.is_boundary_result()
-            }
-            PairResult::Emoji => {
-                self.handle_emoji(&chunk[..offset_in_chunk], chunk_start);
-                self.is_boundary_result()
-            }
-        }
+        self.handle_pair(&chunk[..offset_in_chunk], chunk_start);
+        self.is_boundary_result()
     }
 
     /// Find the next boundary after the current cursor position. Only a part of
-- 
2.43.0


From bdb3b332fcd3fdfefac24c1fb4570c25b5c277d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 10/21] fix: prev_boundary panicked or gave up at the start of
 a chunk

---
 unic/segment/src/grapheme.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index eb8298a..e922373 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -729,6 +729,9 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if self.offset == chunk_start {
+            return Err(GraphemeIncomplete::PrevChunk);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
         let mut ch = iter.next().unwrap();
         loop {
@@ -755,6 +758,7 @@ impl GraphemeCursor {
                 } else if self.offset == 0 {
                     self.decide(true);
                 } else {
+                    self.cat_after = Some(GCB::of(ch));
                     self.resuming = true;
                     return Err(GraphemeIncomplete::PrevChunk);
                 }
-- 
2.43.0


From b5a3f5a3b94840cd33d41bac067ee1def6643c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 11/21] fix: set_cursor kept the state of a suspended query

---
 unic/segment/src/grapheme.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index e922373..5bd49bd 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -394,18 +394,18 @@ impl GraphemeCursor {
     /// assert_eq!(cursor.cur_cursor(), 2);
     /// ```
     pub fn set_cursor(&mut self, offset: usize) {
-        if offset != self.offset {
-            self.offset = offset;
-            self.state = if offset == 0 || offset == self.len {
-                GraphemeState::Break
-            } else {
-                GraphemeState::Unknown
-            };
-            // reset state derived from text around cursor
-            self.cat_before = None;
-            self.cat_after = None;
-            self.ris_count = None;
-        }
+        self.offset = offset;
+        self.state = if offset == 0 || offset == self.len {
+            GraphemeState::Break
+        } else {
+            GraphemeState::Unknown
+        };
+        // reset state derived from text around cursor
+        self.cat_before = None;
+        self.cat_after = None;
+        self.pre_context_offset = None;
+        self.ris_count = None;
+        self.resuming = false;
     }
 
     /// The current offset of the cursor. Equal to the last value provided to
-- 
2.43.0


From 47eef95cafecd34a63e0d85f7d456f5170c8f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 12/21] fix: apply rule L1 to the line, not to the beginning of
 the text

---
 unic/bidi/src/bidi_info.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..5b42b57 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -292,9 +292,11 @@ impl<'text> BidiInfo<'text> {
         // Reset some whitespace chars to paragraph level.
         // <https://www.unicode.org/reports/tr9/#L1>
         let line_str: &str = &self.text[line.clone()];
-        let mut reset_from: Option<usize> = Some(0);
+        let mut reset_from: Option<usize> = Some(line.start);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
+            // Byte index within `levels`
+            let i = line.start + i;
             match self.original_classes[i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
@@ -325,7 +327,7 @@ impl<'text> BidiInfo<'text> {
             }
         }
         if let Some(from) = reset_from {
-            for j in from..line_str.len() {
+            for j in from..line.end {
                 levels[j] = para.level;
             }
         }
-- 
2.43.0


From afc0e8e74f7e9312185c48ced0d003cb36a7cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 13/21] fix: reorder runs by the levels that rule L1 leaves

---
 unic/bidi/src/bidi_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 5b42b57..e28e721 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -365,7 +365,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -373,7 +373,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From 81ae4e0aa301f8aa325d72dacdeb8428ca512a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 14/21] fix: do not panic on a line entirely at the highest
 level

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index e28e721..db217ba 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -359,7 +359,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // No odd level is as high as this one: nothing to reverse.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From 1fe06aafc2ac4da3cc757537ccbb0aecd8b50280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 15/21] fix: look past characters removed by X9 for the end of
 an isolating run

---
 unic/bidi/src/prepare.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/unic/bidi/src/prepare.rs b/unic/bidi/src/prepare.rs
index e75ac19..c7e0d9a 100644
--- a/unic/bidi/src/prepare.rs
+++ b/unic/bidi/src/prepare.rs
@@ -62,7 +62,7 @@ pub fn isolating_run_sequences(
         assert!(!stack.is_empty());
 
         let start_class = original_classes[run.start];
-        let end_class = original_classes[run.end - 1];
+        let end_class = last_class(&original_classes[..run.end]);
 
         let mut sequence = if start_class == PDI && stack.len() > 1 {
             // Continue a previous sequence interrupted by an isolate.
@@ -115,17 +115,18 @@ pub fn isolating_run_sequences(
             };
 
             // Get the level of the next non-removed char after the runs.
-            let succ_level = if matches!(original_classes[end_of_seq - 1], RLI | LRI | FSI) {
-                para_level
-            } else {
-                match original_classes[end_of_seq..]
-                    .iter()
-                    .position(not_removed_by_x9)
-                {
-                    Some(idx) => levels[end_of_seq + idx],
-                    None => para_level,
-                }
-            };
+            let succ_level =
+                if matches!(last_class(&original_classes[..end_of_seq]), RLI | LRI | FSI) {
+                    para_level
+                } else {
+                    match original_classes[end_of_seq..]
+                        .iter()
+                        .position(not_removed_by_x9)
+                    {
+                        Some(idx) => levels[end_of_seq + idx],
+                        None => para_level,
+                    }
+                };
 
             IsolatingRunSequence {
                 runs: sequence,
@@ -136,6 +137,16 @@ pub fn isolating_run_sequences(
         .collect()
 }
 
+/// The class of the last character that rule X9 does not remove, `BN` if it removes all.
+fn last_class(original_classes: &[BidiClass]) -> BidiClass {
+    original_classes
+        .iter()
+        .rev()
+        .cloned()
+        .find(not_removed_by_x9)
+        .unwrap_or(BN)
+}
+
 /// Finds the level runs in a paragraph.
 ///
 /// <https://www.unicode.org/reports/tr9/#BD7>
-- 
2.43.0


From e7bef6c6d4bc3fced849404c0f9fe54a7ba09734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 16/21] fix: characters removed by X9 are no context for
 neutrals

---
 unic/bidi/src/implicit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 0627f16..463376a 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -148,6 +148,10 @@ pub fn resolve_neutral(
     let mut prev_class = sequence.sos;
 
     while let Some(mut i) = indices.next() {
+        if removed_by_x9(processing_classes[i]) {
+            continue;
+        }
+
         // N0. Process bracket pairs.
         // TODO
 
-- 
2.43.0


From c1bc90e178ff6d2e99a0e68e41ba91cdbe43176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 17/21] fix: resolve weak types rule by rule, character by
 character

The single pass lost the last strong AL (W2), looked at classes changed by
later rules (W1, W4, W5), took the second byte of a wide separator for the next
character and left a trailing run of European terminators unresolved (W6).
Fixes the FIXMEs in resolve_weak. The number of failures that the should_panic
conformance tests expect needs lowering accordingly.
---
 unic/bidi/src/bidi_info.rs |   2 +-
 unic/bidi/src/implicit.rs  | 174 ++++++++++++++++---------------------
 2 files changed, 76 insertions(+), 100 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index db217ba..3bb5e7e 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -203,7 +203,7 @@ impl<'text> BidiInfo<'text> {
 
             let sequences = prepare::isolating_run_sequences(para.level, original_classes, levels);
             for sequence in &sequences {
-                implicit::resolve_weak(sequence, processing_classes);
+                implicit::resolve_weak(text, sequence, processing_classes);
                 implicit::resolve_neutral(sequence, levels, processing_classes);
             }
             implicit::resolve_levels(processing_classes, levels);
diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 463376a..3b52cb7 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -17,120 +17,96 @@ use unic_ucd_bidi::bidi_class::abbr_names::*;
 use unic_ucd_bidi::BidiClass;
 
 use super::level::Level;
-use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence, LevelRun};
+use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence};
 
 /// 3.3.4 Resolving Weak Types
 ///
 /// <https://www.unicode.org/reports/tr9/#Resolving_Weak_Types>
-pub fn resolve_weak(sequence: &IsolatingRunSequence, processing_classes: &mut [BidiClass]) {
-    // FIXME (#8): This function applies steps W1-W6 in a single pass.  This can produce
-    // incorrect results in cases where a "later" rule changes the value of `prev_class` seen
-    // by an "earlier" rule.  We should either split this into separate passes, or preserve
-    // extra state so each rule can see the correct previous class.
-
-    // FIXME: Also, this could be the cause of increased failure for using longer-UTF-8 chars in
-    // conformance tests, like BidiTest:69635 (AL ET EN)
+pub fn resolve_weak(
+    text: &str,
+    sequence: &IsolatingRunSequence,
+    processing_classes: &mut [BidiClass],
+) {
+    // The characters of the sequence that rule X9 does not remove: the byte index of each, and its
+    // class.
+    let indices: Vec<usize> = sequence
+        .runs
+        .iter()
+        .flat_map(Clone::clone)
+        .filter(|&i| text.is_char_boundary(i) && not_removed_by_x9(&processing_classes[i]))
+        .collect();
+    let mut classes: Vec<BidiClass> = indices.iter().map(|&i| processing_classes[i]).collect();
 
     let mut prev_class = sequence.sos;
-    let mut last_strong_is_al = false;
-    let mut et_run_indices = Vec::new(); // for W5
+    let mut last_strong = sequence.sos;
+    for class in &mut classes {
+        // <https://www.unicode.org/reports/tr9/#W1>
+        if *class == NSM {
+            *class = match prev_class {
+                RLI | LRI | FSI | PDI => ON,
+                _ => prev_class,
+            };
+        }
+        prev_class = *class;
 
-    // Like sequence.runs.iter().flat_map(Clone::clone), but make indices itself clonable.
-    fn id(x: LevelRun) -> LevelRun {
-        x
+        match *class {
+            L | R | AL => last_strong = *class,
+            // <https://www.unicode.org/reports/tr9/#W2>
+            EN if last_strong == AL => *class = AN,
+            _ => {}
+        }
     }
-    let mut indices = sequence
-        .runs
-        .iter()
-        .cloned()
-        .flat_map(id as fn(LevelRun) -> LevelRun);
-
-    while let Some(i) = indices.next() {
-        match processing_classes[i] {
-            // https://www.unicode.org/reports/tr9/#W1
-            NSM => {
-                processing_classes[i] = match prev_class {
-                    RLI | LRI | FSI | PDI => ON,
-                    _ => prev_class,
-                };
-            }
-            EN => {
-                if last_strong_is_al {
-                    // W2. If previous strong char was AL, change EN to AN.
-                    processing_classes[i] = AN;
-                } else {
-                    // W5. If a run of ETs is adjacent to an EN, change the ETs to EN.
-                    for j in &et_run_indices {
-                        processing_classes[*j] = EN;
-                    }
-                    et_run_indices.clear();
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W3>
-            AL => processing_classes[i] = R,
-
-            // <https://www.unicode.org/reports/tr9/#W4>
-            ES | CS => {
-                let next_class = indices
-                    .clone()
-                    .map(|j| processing_classes[j])
-                    .find(not_removed_by_x9)
-                    .unwrap_or(sequence.eos);
-                processing_classes[i] = match (prev_class, processing_classes[i], next_class) {
-                    (EN, ES, EN) | (EN, CS, EN) => EN,
-                    (AN, CS, AN) => AN,
-                    (_, _, _) => ON,
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W5>
-            ET => {
-                match prev_class {
-                    EN => processing_classes[i] = EN,
-                    _ => et_run_indices.push(i), // In case this is followed by an EN.
-                }
-            }
-            class => {
-                if removed_by_x9(class) {
-                    continue;
-                }
-            }
+
+    // <https://www.unicode.org/reports/tr9/#W3>
+    for class in &mut classes {
+        if *class == AL {
+            *class = R;
         }
+    }
 
-        prev_class = processing_classes[i];
-        match prev_class {
-            L | R => {
-                last_strong_is_al = false;
-            }
-            AL => {
-                last_strong_is_al = true;
-            }
-            _ => {}
+    // <https://www.unicode.org/reports/tr9/#W4>
+    for i in 1..classes.len().saturating_sub(1) {
+        classes[i] = match (classes[i - 1], classes[i], classes[i + 1]) {
+            (EN, ES, EN) | (EN, CS, EN) => EN,
+            (AN, CS, AN) => AN,
+            (_, class, _) => class,
+        };
+    }
+
+    // <https://www.unicode.org/reports/tr9/#W5>
+    let mut i = 0;
+    while i < classes.len() {
+        let start = i;
+        while i < classes.len() && classes[i] == ET {
+            i += 1;
         }
-        if prev_class != ET {
-            // W6. If we didn't find an adjacent EN, turn any ETs into ON instead.
-            for j in &et_run_indices {
-                processing_classes[*j] = ON;
+        if (start > 0 && classes[start - 1] == EN) || (i < classes.len() && classes[i] == EN) {
+            for class in &mut classes[start..i] {
+                *class = EN;
             }
-            et_run_indices.clear();
         }
+        i += 1;
     }
 
-    // W7. If the previous strong char was L, change EN to L.
-    let mut last_strong_is_l = sequence.sos == L;
-    for run in &sequence.runs {
-        for i in run.clone() {
-            match processing_classes[i] {
-                EN if last_strong_is_l => {
-                    processing_classes[i] = L;
-                }
-                L => {
-                    last_strong_is_l = true;
-                }
-                R | AL => {
-                    last_strong_is_l = false;
-                }
-                _ => {}
-            }
+    let mut last_strong = sequence.sos;
+    for class in &mut classes {
+        match *class {
+            // <https://www.unicode.org/reports/tr9/#W6>
+            ES | ET | CS => *class = ON,
+            // <https://www.unicode.org/reports/tr9/#W7>
+            EN if last_strong == L => *class = L,
+            L | R => last_strong = *class,
+            _ => {}
+        }
+    }
+
+    // Every byte of a character has the character's class.
+    for (&start, &class) in indices.iter().zip(&classes) {
+        processing_classes[start] = class;
+        let mut i = start + 1;
+        while i < text.len() && !text.is_char_boundary(i) {
+            processing_classes[i] = class;
+            i += 1;
         }
     }
 }
-- 
2.43.0


From 93409ede62735bc586e815f587736d86a132a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 18/21] fix: punycode decode rejects non-ASCII characters
 before the delimiter

---
 unic/idna/punycode/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..d0b838b 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -75,6 +75,7 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
     // They are encoded as-is before the last delimiter, if any.
     let (mut output, input) = match input.rfind(DELIMITER) {
         None => (Vec::new(), input),
+        Some(position) if !input[..position].is_ascii() => return None,
         Some(position) => (
             input[..position].chars().collect(),
             if position > 0 {
-- 
2.43.0


From 220cd0a7e69525bd46939e77849444e82f4ae791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 19/21] fix: punycode encode reports overflow instead of
 panicking

---
 unic/idna/punycode/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index d0b838b..12eb95a 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -174,7 +174,7 @@ pub fn encode(input: &[char]) -> Option<String> {
         output.push_str("-")
     }
     let mut code_point = INITIAL_N;
-    let mut delta = 0;
+    let mut delta: u32 = 0;
     let mut bias = INITIAL_BIAS;
     let mut processed = basic_length;
     let input_length = input.len() as u32;
@@ -196,10 +196,10 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = match delta.checked_add(1) {
+                    Some(delta) => delta,
+                    None => return None, // Overflow
+                };
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
-- 
2.43.0


From 82ad7a966f5ad450f53451c9df3197cad7998515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 20/21] fix: IDNA decides on the mapped name whether it is a
 Bidi domain name

---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..709638d 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From 1a0d1d3e289a9d052eec570064c1f5438b709c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 21/21] fix: IDNA rejects an ACE label that decodes to another
 ACE label

---
 unic/idna/src/process.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 709638d..b30561b 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -177,6 +177,12 @@ fn validate(label: &str, is_bidi_domain: bool, flags: Flags, errors: &mut Vec<Er
     // https://github.com/whatwg/url/issues/53
     //
     // TODO: Add *CheckHyphens* flag.
+    //
+    // Still, a decoded label that starts with the ACE prefix would be decoded once more when
+    // processed again.
+    else if label.starts_with(PUNYCODE_PREFIX) {
+        errors.push(Error::ValidityCriteria);
+    }
 
     // V3: neither begin nor end with a U+002D HYPHEN-MINUS
     else if label.starts_with('-') || label.ends_with('-') {
-- 
2.43.0

