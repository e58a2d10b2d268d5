From f4bc526af7a197105f704b438386486d46f1d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 01/10] fix: grow the parser's buffer in parse_not_extended

Queries of more than 64 characters panicked with an out-of-bounds index.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From 582a3ce66eec51d73fdcc5063e4fa6718c770c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 02/10] fix: don't drop the negation of a lone inverse fuzzy
 term

A query like "!'foo" took the non-extended shortcut, which ignores
is_inverse, and matched exactly the candidates it should have excluded.
---
 src/metrics/fzf/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..853e126 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -49,7 +49,8 @@ impl<'a> FzfQuery<'a> {
     #[inline]
     pub(super) fn new_extended(conditions: &'a [Condition<'a>]) -> Self {
         // If there's only one condition with a single pattern, and that
-        // pattern is fuzzy, then we can use the non-extended search mode.
+        // pattern is fuzzy and not inverse, then we can use the non-extended
+        // search mode.
         if conditions.len() == 1 {
             let mut patterns = conditions[0].iter();
 
@@ -59,6 +60,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From 8b4025252be04126e00d80a7c0a1ef140f0570b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 03/10] fix: use the class of the actual previous character in
 exact matches

When the scan for an exact match restarted after a partial or full match,
the first character's bonus was computed from the class of whichever
character the previous scan had stopped at.
---
 src/metrics/fzf/fzf.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..3c9cf04 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -198,12 +198,19 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
         let current_start_offset = start_offset;
+
+        // The scan might have gone past `start_offset` before restarting, so
+        // the class of the previous character has to be computed again.
+        let mut prev_class = if start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(start_offset - 1), scheme)
+        };
+
         let mut bonus_start = 0;
         let mut current_bonus: Score = 0;
         let mut pattern_char_idx = 0;
-- 
2.43.0


From 2acc29c3c29376ddbda52f553646f6ba918e5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 04/10] fix: give digits after a word boundary the boundary
 bonus

Like in fzf, the camelCase/number bonus only applies when the previous
character isn't white space, a delimiter or another non-word character.
---
 src/metrics/fzf/scoring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index cdbee33..a6b425b 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -89,8 +89,6 @@ pub(super) fn compute_bonus(
 
         Upper if prev_class == Lower => bonus::CAMEL_123,
 
-        Number if prev_class != Number => bonus::CAMEL_123,
-
         _ => {
             if prev_class == WhiteSpace {
                 scheme.bonus_boundary_white
@@ -98,6 +96,8 @@ pub(super) fn compute_bonus(
                 scheme.bonus_boundary_delimiter
             } else if prev_class == NonWord {
                 bonus::BOUNDARY
+            } else if next_class == Number && prev_class != Number {
+                bonus::CAMEL_123
             } else {
                 0
             }
-- 
2.43.0


From bb2dffbbd0649cefec57ca8a53eae50722319b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/10] fix: leave the ranges buffer untouched if there's no
 match

If a condition matched but a later one didn't, the ranges of the former
were left in the buffer, contrary to what Metric::distance_and_ranges
documents.
---
 src/matched_ranges.rs  |  7 +++++++
 src/metrics/fzf/fzf.rs | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..b7352d7 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,13 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Removes all the ranges that were inserted into this struct, leaving
+    /// the ones that were already in the buffer untouched.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 3c9cf04..5e25eeb 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,15 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let Some(score) = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    }) else {
+                        // The previous conditions might have already inserted
+                        // some ranges.
+                        ranges.clear();
+                        return None;
+                    };
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From 9a5067e076cedb33f87a147ddffbf1a704b1273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 06/10] fix: don't lose coverage when a range spans several
 existing ones

Inserting a range that contains, or reaches past, existing ranges kept
their (smaller) end, so parts of a match weren't reported.
---
 src/matched_ranges.rs | 63 ++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index b7352d7..197d7d8 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -66,6 +66,31 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.truncate(self.initial_len);
     }
 
+    /// Extends the end of the range at `idx` to (at least) `new_end`, merging
+    /// it with all the following ranges that it now reaches.
+    #[inline(always)]
+    fn extend_end(&mut self, idx: usize, new_end: usize) {
+        let range = &mut self.ranges[self.initial_len + idx];
+
+        range.end = range.end.max(new_end);
+
+        let mut end = range.end;
+
+        while idx + 1 < self.len() {
+            let next_range = &self.ranges[self.initial_len + idx + 1];
+
+            if next_range.start > end {
+                break;
+            }
+
+            end = end.max(next_range.end);
+
+            self.remove(idx + 1);
+        }
+
+        self.ranges[self.initial_len + idx].end = end;
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
@@ -82,29 +107,7 @@ impl<'a> MatchedRanges<'a> {
 
             // The range at `idx` and the new range have the same start.
             Ok(idx) => {
-                let (range, next_range) = {
-                    let (left, right) = self.split_at_mut(idx + 1);
-                    (&mut left[idx], right.get_mut(0))
-                };
-
-                if range.end >= new_range.end {
-                    // The new range is completely contained within this
-                    // existing range.
-                    return;
-                }
-
-                if let Some(next_range) = next_range {
-                    if new_range.end >= next_range.start {
-                        // The new range fills the gap between this range and
-                        // the next one.
-                        range.end = next_range.end;
-                        self.remove(idx + 1);
-                        return;
-                    }
-                }
-
-                range.end = new_range.end;
-
+                self.extend_end(idx, new_range.end);
                 return;
             },
         };
@@ -118,6 +121,7 @@ impl<'a> MatchedRanges<'a> {
 
             if new_range.end >= first_range.start {
                 first_range.start = new_range.start;
+                self.extend_end(0, new_range.end);
             } else {
                 self.insert_at(0, new_range);
             }
@@ -146,14 +150,13 @@ impl<'a> MatchedRanges<'a> {
             new_range.start <= prev_range.end,
             new_range.end >= next_range.start,
         ) {
-            // The new range fills the gap between two existing ranges, so
-            // we merge them.
+            // The new range fills the gap between two (or more) existing
+            // ranges, so we merge them.
             //
             // ------   ------    =>    ---------------
             //     xxxxxxx
             (true, true) => {
-                prev_range.end = next_range.end;
-                self.remove(insert_idx);
+                self.extend_end(insert_idx - 1, new_range.end);
             },
 
             // The new range starts within an existing range but ends before
@@ -165,14 +168,14 @@ impl<'a> MatchedRanges<'a> {
                 prev_range.end = new_range.end;
             },
 
-            // The new range ends within an existing range but starts after
-            // the previous one ends, so we extend the start of the existing
-            // range.
+            // The new range reaches an existing range but starts after the
+            // previous one ends, so we extend the start of the existing range.
             //
             // ------    ------    =>    ------  --------
             //         xxxx
             (false, true) => {
                 next_range.start = new_range.start;
+                self.extend_end(insert_idx, new_range.end);
             },
 
             // The new range is strictly within an existing gap, so we just
-- 
2.43.0


From f38eba65f5c8bb3b29856705ec58eb81d696734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 07/10] fix: ignore the case of non-ASCII letters in
 case-insensitive searches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only ASCII letters were compared case-insensitively, so e.g. the query
"é" didn't match "É", contrary to fzf and to the documentation of
CaseSensitivity.
---
 src/utils.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 61f16b6..bf17dfb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,12 +15,16 @@ pub fn ascii_letter_flip_case(ascii_letter: u8) -> u8 {
 
 #[inline(always)]
 pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&rhs)
+    if rhs.is_ascii() {
+        lhs.eq_ignore_ascii_case(&rhs)
+    } else {
+        lhs == rhs || lowercase(lhs) == lowercase(rhs)
+    }
 }
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
 }
 
 #[inline(always)]
@@ -49,6 +53,12 @@ fn leading_spaces(s: &str) -> usize {
     s.bytes().take_while(|&b| b == b' ').count()
 }
 
+/// Returns the single-character lowercase mapping of the given character.
+#[inline]
+fn lowercase(ch: char) -> char {
+    ch.to_lowercase().next().unwrap_or(ch)
+}
+
 /// TODO: docs
 #[inline(always)]
 fn normalize_candidate_char(query_char: char, candidate_char: char) -> char {
-- 
2.43.0


From 811cb1f52bffa7a52122ad893ec2b355512bd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 08/10] fix: only take FzfV2's best score from the last row of
 the matrix

The score of a prefix of the query could be higher than that of any
alignment of the whole query, in which case the prefix's score and ranges
were returned.
---
 src/metrics/fzf/fzf_v2.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..a92bb77 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -399,7 +399,7 @@ fn score<'scoring, 'consecutive>(
     let mut consecutive_matrix =
         consecutive_slab.alloc(matrix_width, matrix_height);
 
-    let (max_score, max_score_cell) = score_first_row(
+    score_first_row(
         scoring_matrix.row_mut(0),
         consecutive_matrix.row_mut(0),
         pattern.char(0),
@@ -414,8 +414,6 @@ fn score<'scoring, 'consecutive>(
         candidate,
         scheme,
         matches,
-        max_score,
-        max_score_cell,
     );
 
     (scoring_matrix, consecutive_matrix, max_score, max_score_cell)
@@ -429,13 +427,9 @@ fn score_first_row(
     first_pattern_char: char,
     candidate: &mut CandidateV2,
     scheme: &Scheme,
-) -> (Score, MatrixCell) {
-    let mut max_score: Score = 0;
-
+) {
     let mut prev_score: Score = 0;
 
-    let mut max_score_col: usize = 0;
-
     let mut column = 0;
 
     let mut penalty = penalty::GAP_START;
@@ -460,11 +454,6 @@ fn score_first_row(
 
         scores_first_row[column] = score;
 
-        if score > max_score {
-            max_score = score;
-            max_score_col = column;
-        }
-
         prev_score = score;
     }
 
@@ -474,8 +463,6 @@ fn score_first_row(
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
     }
-
-    (max_score, MatrixCell(max_score_col))
 }
 
 /// TODO: docs
@@ -487,11 +474,15 @@ fn score_remaining_rows(
     candidate: &mut CandidateV2,
     scheme: &Scheme,
     matches: &[usize],
-    mut max_score: Score,
-    mut max_score_cell: MatrixCell,
 ) -> (Score, MatrixCell) {
     let matrix_width = scores.width();
 
+    let last_row_idx = scores.height() - 1;
+
+    let mut max_score: Score = 0;
+
+    let mut max_score_cell = MatrixCell(0);
+
     for row_idx in 1..scores.height() {
         let pattern_char = pattern.char(row_idx);
 
@@ -548,7 +539,9 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
-            if score > max_score {
+            // Only the cells in the last row are alignments of the whole
+            // pattern.
+            if row_idx == last_row_idx && score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
             }
-- 
2.43.0


From 4320db3aeccb619395cd55677a8d9c5d37efe868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 09/10] fix: don't let FzfV2's scores become negative in long
 gaps

Scores are signed, so saturating_sub() didn't stop at 0 like fzf does and
a long gap could make an alignment's score arbitrarily low.
---
 src/metrics/fzf/fzf_v2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index a92bb77..aa142f3 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -438,7 +438,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -458,7 +458,7 @@ fn score_first_row(
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
@@ -505,14 +505,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = (scores_row[column - 1] - penalty).max(0);
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -553,7 +553,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From b691bb11d03016e000bdf9108f73f8153c7f93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/10] fix: tell the start of a gap from its extension in
 FzfV2

The first column after a row's last match was charged as the extension of
a gap if there was a gap before that match, and a gap that goes on past a
match that's not worth taking was charged as a new one.
---
 src/metrics/fzf/fzf_v2.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index aa142f3..441091c 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -435,8 +435,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -455,6 +453,8 @@ fn score_first_row(
         scores_first_row[column] = score;
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -501,8 +501,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -537,6 +535,13 @@ fn score_remaining_rows(
                 bonus
             };
 
+            // If the best score comes from the left we're still in a gap.
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
+
             let score = score_left.max(score_up_left);
 
             // Only the cells in the last row are alignments of the whole
-- 
2.43.0

