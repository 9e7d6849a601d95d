From c724fb93099b3c28c31b82d983f39e12e48938f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 1/8] fix: grow the parser's buffer in parse_not_extended

Queries of more than 64 characters panicked.
---
 src/metrics/fzf/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..f5d833e 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,10 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        if self.chars.len() < query.len() {
+            self.chars.resize(query.len(), char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From 9a35bf1a96a86471484aefeae202cd11a370eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 2/8] fix: keep the negation of a lone inverse fuzzy pattern

The query `!'foo` was evaluated as if it were `foo`.
---
 src/metrics/fzf/query.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..d54b058 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -59,6 +59,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From 6e41bfba81ab5e8c45a5b61922d707ebb61803db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 3/8] fix: leave the ranges buffer untouched when a later
 condition fails

---
 src/matched_ranges.rs  |  7 +++++++
 src/metrics/fzf/fzf.rs | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..e7b226a 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,13 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Removes all the ranges inserted so far, leaving the ones that were
+    /// already in the buffer.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..16b40dd 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,15 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let Some(score) = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    }) else {
+                        // The candidate is not a match, so the ranges of the
+                        // conditions that did match have to be discarded.
+                        ranges.clear();
+                        return None;
+                    };
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From 3e20437b65649772f54712392aa621b339ef4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 4/8] fix: restart the scan of exact_match from the right
 character class

The class of the character before the restarting point was stale, so the wrong
occurrence could be selected: matching `'a` against "XaA" selected the second
one.
---
 src/metrics/fzf/fzf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 16b40dd..14e66a5 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -204,11 +204,15 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
+        let mut prev_class = if start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(start_offset - 1), scheme)
+        };
+
         let current_start_offset = start_offset;
         let mut bonus_start = 0;
         let mut current_bonus: Score = 0;
-- 
2.43.0


From 7fdbc46008b5328001ce3bbc9d8234a2ae0e97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 5/8] fix: give numbers the bonus of the boundary they follow

Like in fzf, a number following a whitespace, a delimiter or a non-word
character is at a word boundary.
---
 src/metrics/fzf/scoring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index cdbee33..a6b425b 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -89,8 +89,6 @@ pub(super) fn compute_bonus(
 
         Upper if prev_class == Lower => bonus::CAMEL_123,
 
-        Number if prev_class != Number => bonus::CAMEL_123,
-
         _ => {
             if prev_class == WhiteSpace {
                 scheme.bonus_boundary_white
@@ -98,6 +96,8 @@ pub(super) fn compute_bonus(
                 scheme.bonus_boundary_delimiter
             } else if prev_class == NonWord {
                 bonus::BOUNDARY
+            } else if next_class == Number && prev_class != Number {
+                bonus::CAMEL_123
             } else {
                 0
             }
-- 
2.43.0


From c1e6c3be0027466f743cf206a2ed20b4434c8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 6/8] fix: make MatchedRanges::insert compute the union of the
 ranges

Inserting a range that reaches past the end of the first range, past the end of
the next range or over several ranges lost part of it or left overlapping ranges:
matching `b 'abc` against "abc" returned [0..2].
---
 src/matched_ranges.rs | 44 +++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index e7b226a..0cb3287 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -82,10 +82,7 @@ impl<'a> MatchedRanges<'a> {
 
             // The range at `idx` and the new range have the same start.
             Ok(idx) => {
-                let (range, next_range) = {
-                    let (left, right) = self.split_at_mut(idx + 1);
-                    (&mut left[idx], right.get_mut(0))
-                };
+                let range = self.get_mut(idx).unwrap();
 
                 if range.end >= new_range.end {
                     // The new range is completely contained within this
@@ -93,18 +90,10 @@ impl<'a> MatchedRanges<'a> {
                     return;
                 }
 
-                if let Some(next_range) = next_range {
-                    if new_range.end >= next_range.start {
-                        // The new range fills the gap between this range and
-                        // the next one.
-                        range.end = next_range.end;
-                        self.remove(idx + 1);
-                        return;
-                    }
-                }
-
                 range.end = new_range.end;
 
+                self.merge_following(idx);
+
                 return;
             },
         };
@@ -118,6 +107,8 @@ impl<'a> MatchedRanges<'a> {
 
             if new_range.end >= first_range.start {
                 first_range.start = new_range.start;
+                first_range.end = first_range.end.max(new_range.end);
+                self.merge_following(0);
             } else {
                 self.insert_at(0, new_range);
             }
@@ -152,8 +143,8 @@ impl<'a> MatchedRanges<'a> {
             // ------   ------    =>    ---------------
             //     xxxxxxx
             (true, true) => {
-                prev_range.end = next_range.end;
-                self.remove(insert_idx);
+                prev_range.end = prev_range.end.max(new_range.end);
+                self.merge_following(insert_idx - 1);
             },
 
             // The new range starts within an existing range but ends before
@@ -173,6 +164,8 @@ impl<'a> MatchedRanges<'a> {
             //         xxxx
             (false, true) => {
                 next_range.start = new_range.start;
+                next_range.end = next_range.end.max(new_range.end);
+                self.merge_following(insert_idx);
             },
 
             // The new range is strictly within an existing gap, so we just
@@ -205,6 +198,25 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.len() - self.initial_len
     }
 
+    /// Merges the range at the given index with all the ranges after it that
+    /// it reaches.
+    #[inline(always)]
+    fn merge_following(&mut self, idx: usize) {
+        while idx + 1 < self.len() {
+            let (range, next_range) = {
+                let (left, right) = self.split_at_mut(idx + 1);
+                (&mut left[idx], &mut right[0])
+            };
+
+            if range.end < next_range.start {
+                break;
+            }
+
+            range.end = range.end.max(next_range.end);
+            self.remove(idx + 1);
+        }
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn push(&mut self, range: Range<usize>) {
-- 
2.43.0


From 0df24a2ccf379491d49256c3880ff4c7b3fddc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 7/8] fix: charge every gap exactly one opening penalty in
 FzfV2

A gap following the last match of a row wasn't charged any if another gap
preceded that match, and a gap spanning a match that isn't part of the best
alignment was charged two.
---
 src/metrics/fzf/fzf_v2.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..108da51 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -441,8 +441,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = prev_score.saturating_sub(penalty);
             scores_first_row[col] = score;
@@ -466,6 +464,8 @@ fn score_first_row(
         }
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -510,8 +510,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = score_left.saturating_sub(penalty);
@@ -556,6 +554,14 @@ fn score_remaining_rows(
             consecutives_row[column] = consecutive;
 
             scores_row[column] = score;
+
+            // If the best alignment up to this cell doesn't use this match
+            // then we're still in the same gap.
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
         }
 
         for col in column + 1..matrix_width {
-- 
2.43.0


From 50055f3342cafb8fec434a37b24157564c7aa256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 8/8] fix: make FzfV2 score full matches of the query only

The best score was searched for in all the rows of the scoring matrix and the
scores weren't clamped at zero, so when the query's characters are far apart both
the score and the ranges could be those of a prefix of the query: matching `ab`
against a "b" 20 characters after the "a" only returned the range of the "a".
---
 src/metrics/fzf/fzf_v2.rs | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 108da51..f4dd86b 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -399,7 +399,7 @@ fn score<'scoring, 'consecutive>(
     let mut consecutive_matrix =
         consecutive_slab.alloc(matrix_width, matrix_height);
 
-    let (max_score, max_score_cell) = score_first_row(
+    score_first_row(
         scoring_matrix.row_mut(0),
         consecutive_matrix.row_mut(0),
         pattern.char(0),
@@ -414,8 +414,6 @@ fn score<'scoring, 'consecutive>(
         candidate,
         scheme,
         matches,
-        max_score,
-        max_score_cell,
     );
 
     (scoring_matrix, consecutive_matrix, max_score, max_score_cell)
@@ -429,20 +427,16 @@ fn score_first_row(
     first_pattern_char: char,
     candidate: &mut CandidateV2,
     scheme: &Scheme,
-) -> (Score, MatrixCell) {
-    let mut max_score: Score = 0;
-
+) {
     let mut prev_score: Score = 0;
 
-    let mut max_score_col: usize = 0;
-
     let mut column = 0;
 
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = prev_score.saturating_sub(penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -458,24 +452,17 @@ fn score_first_row(
 
         scores_first_row[column] = score;
 
-        if score > max_score {
-            max_score = score;
-            max_score_col = column;
-        }
-
         prev_score = score;
 
         penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = prev_score.saturating_sub(penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
     }
-
-    (max_score, MatrixCell(max_score_col))
 }
 
 /// TODO: docs
@@ -487,14 +474,19 @@ fn score_remaining_rows(
     candidate: &mut CandidateV2,
     scheme: &Scheme,
     matches: &[usize],
-    mut max_score: Score,
-    mut max_score_cell: MatrixCell,
 ) -> (Score, MatrixCell) {
     let matrix_width = scores.width();
 
+    let mut max_score: Score = 0;
+
+    let mut max_score_cell = MatrixCell(0);
+
     for row_idx in 1..scores.height() {
         let pattern_char = pattern.char(row_idx);
 
+        // Only the cells of the last row match all the pattern's characters.
+        let is_last_row = row_idx + 1 == scores.height();
+
         let (prev_scores_row, scores_row) =
             scores.two_rows_mut(row_idx - 1, row_idx);
 
@@ -512,7 +504,7 @@ fn score_remaining_rows(
         {
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = score_left.saturating_sub(penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
@@ -546,7 +538,7 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
-            if score > max_score {
+            if is_last_row && score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
             }
@@ -566,7 +558,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = score_left.saturating_sub(penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0

