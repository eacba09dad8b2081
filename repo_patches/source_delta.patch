From 01bbcd840b0c07c627515e55c8017fabd1b9285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 01/19] fix: IndexSet::minus_one_range drops ranges past the
 end, so that next_back yields nothing outside the range

---
 rust/core-lib/src/index_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/index_set.rs b/rust/core-lib/src/index_set.rs
index ddc3635..a02975a 100644
--- a/rust/core-lib/src/index_set.rs
+++ b/rust/core-lib/src/index_set.rs
@@ -118,6 +118,9 @@ impl IndexSet {
         while !ranges.is_empty() && start >= ranges[0].1 {
             ranges = &ranges[1..];
         }
+        while !ranges.is_empty() && end <= ranges[ranges.len() - 1].0 {
+            ranges = &ranges[..ranges.len() - 1];
+        }
         MinusIter { ranges, start, end }
     }
 
-- 
2.43.0


From 9fb09f916180a2ef6a98534bf6f3a5b4ab76100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 02/19] fix: grapheme lookup over three or more leaves hung or
 skipped a leaf

After moving to the neighbouring leaf, next_grapheme and prev_grapheme stored the end of
that leaf as the place to continue from.  For a cluster longer than one more leaf, going
back from there visited the same leaf again for ever, and going forward skipped a leaf.
---
 rust/rope/src/rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index b678bb1..5f84695 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -691,7 +691,7 @@ impl<'a> Cursor<'a, RopeInfo> {
                 let (nl, noffset) = self.next_leaf()?;
                 l = nl;
                 leaf_offset = self.pos() - noffset;
-                pos = leaf_offset + nl.len();
+                pos = leaf_offset;
             } else {
                 return None;
             }
@@ -719,7 +719,7 @@ impl<'a> Cursor<'a, RopeInfo> {
                 let (pl, poffset) = self.prev_leaf()?;
                 l = pl;
                 leaf_offset = self.pos() - poffset;
-                pos = leaf_offset + pl.len();
+                pos = leaf_offset;
             } else {
                 return None;
             }
-- 
2.43.0


From 5a0394be10fdd4b8f7ca7a7f21f8d09d0a34eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:11 +0000
Subject: [PATCH 03/19] fix: the next code point after an offset inside one was
 computed from a continuation byte

BaseMetric::next took the length of a character from the byte at the offset, so
at_or_next_codepoint_boundary gave an offset past the character, or past the text, for an
offset inside a character.
---
 rust/rope/src/rope.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index 5f84695..cedc7ad 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -200,8 +200,11 @@ impl Metric<RopeInfo> for BaseMetric {
             // with offset == s.len(), but be defensive.
             None
         } else {
-            let b = s.as_bytes()[offset];
-            Some(offset + len_utf8_from_first_byte(b))
+            let mut len = 1;
+            while !s.is_char_boundary(offset + len) {
+                len += 1;
+            }
+            Some(offset + len)
         }
     }
 
-- 
2.43.0


From 4f27d5ddedd785c9b0698191302fbe8b6f597258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 04/19] fix: Delta::iter_inserts and iter_deletions counted
 inserted text in offsets into the old document

---
 rust/rope/src/delta.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rust/rope/src/delta.rs b/rust/rope/src/delta.rs
index a904217..21c67ff 100644
--- a/rust/rope/src/delta.rs
+++ b/rust/rope/src/delta.rs
@@ -654,7 +654,6 @@ impl<'a, N: NodeInfo> Iterator for InsertsIter<'a, N> {
                 DeltaElement::Insert(ref n) => {
                     result = Some(DeltaRegion::new(self.last_end, self.pos, n.len()));
                     self.pos += n.len();
-                    self.last_end += n.len();
                     break;
                 }
             }
@@ -689,7 +688,6 @@ impl<'a, N: NodeInfo> Iterator for DeletionsIter<'a, N> {
                 }
                 DeltaElement::Insert(ref n) => {
                     self.pos += n.len();
-                    self.last_end += n.len();
                 }
             }
         }
-- 
2.43.0


From cd0e7e7c1a49cc498e1fdec6ef29d8edddf5d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 05/19] fix: a region that touches the end of a range was left
 out when another region ends there

---
 rust/core-lib/src/selection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index acde566..019640c 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -130,7 +130,8 @@ impl Selection {
     pub fn regions_in_range(&self, start: usize, end: usize) -> &[SelRegion] {
         let first = self.search(start);
         let mut last = self.search(end);
-        if last < self.regions.len() && self.regions[last].min() <= end {
+        // more than one region can touch the end of the range
+        while last < self.regions.len() && self.regions[last].min() <= end {
             last += 1;
         }
         &self.regions[first..last]
@@ -146,7 +147,7 @@ impl Selection {
         if !delete_adjacent && self.regions[first].max() == start {
             first += 1;
         }
-        if last < self.regions.len()
+        while last < self.regions.len()
             && ((delete_adjacent && self.regions[last].min() <= end)
                 || (!delete_adjacent && self.regions[last].min() < end))
         {
-- 
2.43.0


From 42dd49d6aa0ea74742da12c85854ba93c03cc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 06/19] fix: deleting an empty range at a caret and re-adding a
 caret underflowed

---
 rust/core-lib/src/selection.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index 019640c..6fc86a5 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -153,7 +153,10 @@ impl Selection {
         {
             last += 1;
         }
-        remove_n_at(&mut self.regions, first, last - first);
+        // a caret at an empty range meets nothing of its inside
+        if first < last {
+            remove_n_at(&mut self.regions, first, last - first);
+        }
     }
 
     /// Add a region to the selection. This method does not merge regions and does not allow
@@ -166,7 +169,10 @@ impl Selection {
     pub fn add_range_distinct(&mut self, region: SelRegion) -> (usize, usize) {
         let mut ix = self.search(region.min());
 
-        if ix < self.regions.len() && self.regions[ix].max() == region.min() {
+        if ix < self.regions.len()
+            && self.regions[ix].max() == region.min()
+            && !(region.is_caret() && self.regions[ix].is_caret())
+        {
             ix += 1;
         }
 
-- 
2.43.0


From 73e86707193df33a2d4a98f7ebcbb084c755bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 07/19] fix: find_ne_char_back could stop inside a character

The search for the nearest code point boundary gave up one byte short, so
two characters that share only their last byte were reported to have that
byte in common, and the difference computed from it split the character.
---
 rust/rope/src/compare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index 36da4b9..fc38331 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -248,7 +248,7 @@ impl<'a> RopeScanner<'a> {
                 ne_idx_rev(self.base_chunk.as_bytes(), self.target_chunk.as_bytes())
             {
                 // find nearest codepoint boundary
-                while idx > 1 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
+                while idx > 0 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
                     idx -= 1;
                 }
                 return stop.min(self.scanned + idx);
-- 
2.43.0


From 4f040590d947590b1670e1bf4d2d2726c6267dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 08/19] fix: vector comparison read past the end of the slices

The last, shorter stride was compared with a full 16 or 32 byte load, which
reads out of bounds and can fault when the slice ends at the end of a page.
---
 rust/rope/src/compare.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index fc38331..d008696 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -104,20 +104,19 @@ pub fn ne_idx_rev(one: &[u8], two: &[u8]) -> Option<usize> {
 pub unsafe fn ne_idx_avx(one: &[u8], two: &[u8]) -> Option<usize> {
     let min_len = one.len().min(two.len());
     let mut idx = 0;
-    while idx < min_len {
-        let stride_len = AVX_STRIDE.min(min_len - idx);
+    while min_len - idx >= AVX_STRIDE {
         let mask = avx_compare_mask(
-            &one.get_unchecked(idx..idx + stride_len),
-            &two.get_unchecked(idx..idx + stride_len),
+            one.get_unchecked(idx..idx + AVX_STRIDE),
+            two.get_unchecked(idx..idx + AVX_STRIDE),
         );
-        // at the end of the slice the mask might include garbage bytes, so
-        // we ignore matches that are OOB
-        if mask != 0 && idx + (mask.trailing_zeros() as usize) < min_len {
+        if mask != 0 {
             return Some(idx + mask.trailing_zeros() as usize);
         }
         idx += AVX_STRIDE;
     }
-    None
+    // what remains is shorter than a stride; loading a full one would read
+    // past the end of the slices.
+    ne_idx_fallback(&one[idx..min_len], &two[idx..min_len]).map(|i| idx + i)
 }
 
 #[doc(hidden)]
@@ -126,18 +125,19 @@ pub unsafe fn ne_idx_avx(one: &[u8], two: &[u8]) -> Option<usize> {
 pub unsafe fn ne_idx_sse(one: &[u8], two: &[u8]) -> Option<usize> {
     let min_len = one.len().min(two.len());
     let mut idx = 0;
-    while idx < min_len {
-        let stride_len = SSE_STRIDE.min(min_len - idx);
+    while min_len - idx >= SSE_STRIDE {
         let mask = sse_compare_mask(
-            &one.get_unchecked(idx..idx + stride_len),
-            &two.get_unchecked(idx..idx + stride_len),
+            one.get_unchecked(idx..idx + SSE_STRIDE),
+            two.get_unchecked(idx..idx + SSE_STRIDE),
         );
-        if mask != 0 && idx + (mask.trailing_zeros() as usize) < min_len {
+        if mask != 0 {
             return Some(idx + mask.trailing_zeros() as usize);
         }
         idx += SSE_STRIDE;
     }
-    None
+    // what remains is shorter than a stride; loading a full one would read
+    // past the end of the slices.
+    ne_idx_fallback(&one[idx..min_len], &two[idx..min_len]).map(|i| idx + i)
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 4532adcfedc9d0170b6ee00dccb75040a70729ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 09/19] fix: computed differences could copy overlapping parts
 of the base

Matches were kept from overlapping in the target only. The deltas that
resulted gave the right text when applied, but could not be factored into
insertions and deletions, so editing with them corrupted the document.
---
 rust/rope/src/diff.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rust/rope/src/diff.rs b/rust/rope/src/diff.rs
index cead72e..f18c2ff 100644
--- a/rust/rope/src/diff.rs
+++ b/rust/rope/src/diff.rs
@@ -112,23 +112,28 @@ impl Diff<RopeInfo> for LineHashDiff {
 
         // for each matching region, we extend it forwards and backwards.
         // we keep track of how far forward we extend it each time, to avoid
-        // having a subsequent scan extend backwards over the same region.
+        // having a subsequent scan extend backwards over the same region. This
+        // applies to both documents, as copied base regions may not overlap.
         let mut prev_end = start_offset;
+        let mut prev_base_end = start_offset;
+        let base_end = base.len() - diff_end;
 
         for (targ_off, base_off) in longest_subseq {
-            if targ_off <= prev_end {
+            if targ_off <= prev_end || base_off < prev_base_end || base_off >= base_end {
                 continue;
             }
+            let max_left = (targ_off - prev_end).min(base_off - prev_base_end);
             let (left_dist, mut right_dist) =
-                expand_match(base, target, base_off, targ_off, prev_end);
+                expand_match(base, target, base_off, targ_off, max_left);
 
-            // don't let last match expand past target_end
-            right_dist = right_dist.min(target_end - targ_off);
+            // don't let last match expand past target_end or base_end
+            right_dist = right_dist.min(target_end - targ_off).min(base_end - base_off);
 
             let targ_start = targ_off - left_dist;
             let base_start = base_off - left_dist;
             let len = left_dist + right_dist;
             prev_end = targ_start + len;
+            prev_base_end = base_start + len;
 
             builder.copy(base_start, targ_start, len);
         }
@@ -146,16 +151,15 @@ impl Diff<RopeInfo> for LineHashDiff {
 ///
 /// The return value is a pair of offsets, each of which represents an absolute
 /// distance. That is to say, the position of the start and end boundaries
-/// relative to the input offset.
+/// relative to the input offset. The start is at most `max_left` away.
 fn expand_match(
     base: &Rope,
     target: &Rope,
     base_off: usize,
     targ_off: usize,
-    prev_match_targ_end: usize,
+    max_left: usize,
 ) -> (usize, usize) {
     let mut scanner = RopeScanner::new(base, target);
-    let max_left = targ_off - prev_match_targ_end;
     let start = scanner.find_ne_char_back(base_off, targ_off, max_left);
     debug_assert!(start <= max_left, "{} <= {}", start, max_left);
     let end = scanner.find_ne_char(base_off, targ_off, None);
-- 
2.43.0


From 8c5457a1a36620c44939fb41e8412706e2106c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 10/19] fix: case-insensitive search missed patterns starting
 with a non-ASCII capital

---
 rust/rope/src/find.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index b5862ac..5ef5d81 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -137,7 +137,7 @@ pub fn find_progress(
                         let scanner = |s: &str| memchr(b, s.as_bytes());
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     } else {
-                        let c = pat.chars().next().unwrap();
+                        let c = pat_lower.chars().next().unwrap();
                         let scanner = |s: &str| scan_lowercase(c, s);
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     }
-- 
2.43.0


From 98ff506225fb46625e810f02668cf473f8eb4e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 11/19] fix: case-insensitive search missed patterns ending in
 a capital sigma

---
 rust/rope/src/find.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index 5ef5d81..1561732 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -119,7 +119,9 @@ pub fn find_progress(
                     find_progress_iter(cursor, lines, pat, scanner, matcher, num_steps)
                 }
                 CaseMatching::CaseInsensitive => {
-                    let pat_lower = pat.to_lowercase();
+                    // fold character by character, as the text is: `str::to_lowercase` would
+                    // treat a final sigma differently
+                    let pat_lower = pat.chars().flat_map(char::to_lowercase).collect::<String>();
                     let b = pat_lower.as_bytes()[0];
                     let matcher = compare_cursor_str_casei;
                     if b == b'i' {
-- 
2.43.0


From 81fdc1d3589a959c2d850bc63710c2e2660ba084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 12/19] fix: a joiner at the start of a segment still joins the
 emoji after it (LB8a)

---
 rust/unicode/src/tables.rs      | 24 ++++++++++++------------
 rust/unicode/tools/mk_tables.py |  4 +++-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/rust/unicode/src/tables.rs b/rust/unicode/src/tables.rs
index fc3087d..7df08a6 100644
--- a/rust/unicode/src/tables.rs
+++ b/rust/unicode/src/tables.rs
@@ -1181,7 +1181,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 6: BK
     192, 193, 194, 195, 196, 197, 198, 199, 200, 194, 202, 203, 204, 205, 206,
     207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221,
-    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 194,
+    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234,
     // state 7: CB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 7, 10, 11, 12, 141, 142, 143, 16,
     17, 146, 147, 148, 149, 150, 23, 152, 153, 53, 27, 28, 29, 30, 159, 160,
@@ -1197,7 +1197,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 10: CR
     192, 193, 194, 195, 196, 197, 198, 199, 200, 194, 202, 203, 204, 205, 206,
     207, 208, 17, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221,
-    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 194,
+    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234,
     // state 11: EX
     128, 129, 130, 131, 4, 133, 6, 135, 8, 11, 10, 11, 12, 13, 142, 15, 16, 17,
     18, 147, 148, 149, 150, 23, 152, 153, 57, 27, 28, 29, 30, 159, 160, 161,
@@ -1225,7 +1225,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 17: LF
     192, 193, 194, 195, 196, 197, 198, 199, 200, 194, 202, 203, 204, 205, 206,
     207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221,
-    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 194,
+    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234,
     // state 18: NS
     128, 129, 130, 131, 4, 133, 6, 135, 8, 18, 10, 11, 12, 13, 142, 143, 16, 17,
     18, 147, 148, 149, 150, 23, 152, 153, 64, 27, 28, 29, 30, 159, 160, 161,
@@ -1261,7 +1261,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 26: SP
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 72, 27, 28, 29, 30, 159,
-    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 27: SY
     128, 129, 130, 131, 4, 133, 6, 135, 8, 27, 10, 11, 12, 13, 142, 143, 16, 17,
     18, 19, 148, 149, 150, 23, 152, 153, 73, 27, 28, 29, 30, 159, 160, 161, 162,
@@ -1269,11 +1269,11 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 28: ZW
     128, 129, 130, 131, 132, 133, 6, 135, 136, 130, 10, 139, 140, 141, 142, 143,
     144, 17, 146, 147, 148, 149, 150, 151, 152, 153, 74, 155, 28, 29, 158, 159,
-    160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170,
     // state 29: NL
     192, 193, 194, 195, 196, 197, 198, 199, 200, 194, 202, 203, 204, 205, 206,
     207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221,
-    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 194,
+    222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234,
     // state 30: WJ
     0, 1, 2, 3, 4, 5, 6, 7, 8, 30, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
     21, 22, 23, 24, 25, 76, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
@@ -1365,7 +1365,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 52: SP+ BK
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
-    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 53: SP+ CB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
@@ -1381,7 +1381,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 56: SP+ CR
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
-    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 57: SP+ EX
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
@@ -1409,7 +1409,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 63: SP+ LF
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
-    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 64: SP+ NS
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
@@ -1445,7 +1445,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 72: SP+ SP
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
-    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 73: SP+ SY
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
@@ -1453,11 +1453,11 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     // state 74: SP+ ZW
     128, 129, 130, 131, 132, 133, 6, 135, 136, 130, 10, 139, 140, 141, 142, 143,
     144, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 155, 28, 29, 158, 159,
-    160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170,
     // state 75: SP+ NL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
-    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
+    160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 76: SP+ WJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
     16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
diff --git a/rust/unicode/tools/mk_tables.py b/rust/unicode/tools/mk_tables.py
index fe6b614..40c91bc 100644
--- a/rust/unicode/tools/mk_tables.py
+++ b/rust/unicode/tools/mk_tables.py
@@ -353,7 +353,9 @@ def mk_lb_rules():
             l_with_cm = left
             if R in ['CM', 'ZWJ'] and L in ['BK', 'CR', 'LF', 'NL', 'SP', 'ZW']:
                 # handling for LB10
-                r_with_cm = 2  # AL
+                if R == 'CM':
+                    r_with_cm = 2  # AL
+                # (a ZWJ keeps its own state: LB8a applies before LB10)
                 bk = t[L + '|' + 'AL']
             elif L == 'ZWJ' and R not in ['ID', 'EB', 'EM']:
                 #handling for LB10
-- 
2.43.0


From c41f5d9db2ff4152ee3b4af3454461afbe13edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 13/19] fix: backspace took only part of a joined emoji that
 contains a modified one

---
 rust/core-lib/src/backspace.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/backspace.rs b/rust/core-lib/src/backspace.rs
index 79dc391..759e5bd 100644
--- a/rust/core-lib/src/backspace.rs
+++ b/rust/core-lib/src/backspace.rs
@@ -133,15 +133,20 @@ pub fn offset_for_delete_backwards(region: &SelRegion, text: &Rope, config: &Buf
                         } else {
                             if code_point.is_emoji_modifier_base() {
                                 delete_code_point_count += 1;
+                                // the modified emoji may itself follow a ZWJ
+                                state = State::BeforeEmoji;
+                            } else {
+                                state = State::Finished;
                             }
-                            state = State::Finished;
                         }
                     }
                     State::BeforeVSAndEmojiModifier => {
                         if code_point.is_emoji_modifier_base() {
                             delete_code_point_count += last_seen_vs_code_point_count + 1;
+                            state = State::BeforeEmoji;
+                        } else {
+                            state = State::Finished;
                         }
-                        state = State::Finished;
                     }
                     State::BeforeVS => {
                         if code_point.is_emoji() {
-- 
2.43.0


From 5ccef0c07fa120048e3e7510aa4d7d9558013ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 14/19] fix: backspace deleted a whole run of tags when no
 emoji comes before it

---
 rust/core-lib/src/backspace.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/core-lib/src/backspace.rs b/rust/core-lib/src/backspace.rs
index 759e5bd..4dbcb82 100644
--- a/rust/core-lib/src/backspace.rs
+++ b/rust/core-lib/src/backspace.rs
@@ -208,6 +208,11 @@ pub fn offset_for_delete_backwards(region: &SelRegion, text: &Rope, config: &Buf
                 }
             }
 
+            if state == State::InTagSequence {
+                // the text starts within the tags: there is no emoji they belong to
+                delete_code_point_count = 1;
+            }
+
             let mut start = region.end;
             while delete_code_point_count > 0 {
                 start = text.prev_codepoint_offset(start).unwrap_or(0);
-- 
2.43.0


From 240a8369f735e862593492bed6a4006156423cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 15/19] fix: backspace with several carets close together
 panicked

---
 rust/core-lib/src/edit_ops.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 075695a..830666f 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -111,16 +111,14 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 pub fn delete_backward(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
     // TODO: this function is workable but probably overall code complexity
     // could be improved by implementing a "backspace" movement instead.
-    let mut builder = DeltaBuilder::new(base.len());
+    // Deletions are collected as a selection, which merges those that overlap.
+    let mut deletions = Selection::new();
     for region in regions {
         let start = offset_for_delete_backwards(&region, base, &config);
-        let iv = Interval::new(start, region.max());
-        if !iv.is_empty() {
-            builder.delete(iv);
-        }
+        deletions.add_region(SelRegion::new(start, region.max()));
     }
 
-    builder.build()
+    delete_sel_regions(base, &deletions)
 }
 
 /// Common logic for a number of delete methods. For each region in the
-- 
2.43.0


From 8e37b412d7b101ba58dc79d85da6ad062c2021d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 16/19] fix: moving a selection down from an empty last line
 underflowed

---
 rust/core-lib/src/movement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 210005b..748d5a7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -111,7 +111,7 @@ fn vertical_motion_exact_pos(
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
     // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length - 1 } else { col };
+    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
 
     loop {
         line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
-- 
2.43.0


From a8f60b4f0baafb6f38b677d8a8836dfc082ab24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 17/19] fix: collecting an edit in the middle of the history
 broke the revisions kept from before it

The characters a dropped revision inserted stay in the union string, but the
subsets of the earlier revisions that are kept were left in the coordinates
from before those characters, so a later undo panicked.
---
 rust/rope/src/engine.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 14ab7da..e50fb4c 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -606,6 +606,9 @@ impl Engine {
             self.tombstones = dels_from_tombstones.delete_from(&self.tombstones);
             self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);
         }
+        // What dropped revisions inserted stays, so it has to be made part of the context of the
+        // revisions kept from before them.
+        let mut dropped_inserts = Subset::new(self.deletes_from_union.len());
         let old_revs = std::mem::replace(&mut self.revs, Vec::new());
         for rev in old_revs.into_iter().rev() {
             match rev.edit {
@@ -615,17 +618,22 @@ impl Engine {
                     } else {
                         Some(gc_dels.transform_shrink(&inserts))
                     };
+                    let (inserts, deletes) = if gc_dels.is_empty() {
+                        (inserts, deletes)
+                    } else {
+                        (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
+                    };
                     if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
-                        let (inserts, deletes) = if gc_dels.is_empty() {
-                            (inserts, deletes)
-                        } else {
-                            (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
-                        };
+                        let inserts = inserts.transform_expand(&dropped_inserts);
+                        let deletes = deletes.transform_expand(&dropped_inserts);
+                        dropped_inserts = dropped_inserts.transform_shrink(&inserts);
                         self.revs.push(Revision {
                             rev_id: rev.rev_id,
                             max_undo_so_far: rev.max_undo_so_far,
                             edit: Edit { priority, undo_group, inserts, deletes },
                         });
+                    } else {
+                        dropped_inserts = inserts.transform_union(&dropped_inserts);
                     }
                     if let Some(new_gc_dels) = new_gc_dels {
                         gc_dels = new_gc_dels;
-- 
2.43.0


From 9d4f26c0dff84229c0cac33bfda03a1bf7759aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 18/19] fix: merge keeps the revisions of different sessions
 apart

compute_transforms joined consecutive revisions of the same priority even
when they came from different sessions, so the text of a third peer was
ordered by the wrong session and three peers did not converge.
---
 rust/rope/src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index e50fb4c..23b1087 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -870,18 +870,18 @@ fn compute_deltas(
 /// as opposed to thousands of revisions.
 fn compute_transforms(revs: Vec<Revision>) -> Vec<(FullPriority, Subset)> {
     let mut out = Vec::new();
-    let mut last_priority: Option<usize> = None;
+    let mut last_priority: Option<FullPriority> = None;
     for r in revs {
         if let Contents::Edit { priority, inserts, .. } = r.edit {
             if inserts.is_empty() {
                 continue;
             }
-            if Some(priority) == last_priority {
+            let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+            if Some(prio) == last_priority {
                 let last: &mut (FullPriority, Subset) = out.last_mut().unwrap();
                 last.1 = last.1.transform_union(&inserts);
             } else {
-                last_priority = Some(priority);
-                let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+                last_priority = Some(prio);
                 out.push((prio, inserts));
             }
         }
-- 
2.43.0


From 9232f73b685bf727ed9f4053e7046cd3c4bb2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 19/19] fix: ChunkCache::get_region refuses a region past the
 end of the document

It kept asking the core for more data, which never came.
---
 rust/plugin-lib/src/base_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/plugin-lib/src/base_cache.rs b/rust/plugin-lib/src/base_cache.rs
index ba42125..9c1aa2c 100644
--- a/rust/plugin-lib/src/base_cache.rs
+++ b/rust/plugin-lib/src/base_cache.rs
@@ -120,6 +120,9 @@ impl Cache for ChunkCache {
         I: IntervalBounds,
     {
         let Interval { start, end } = interval.into_interval(self.buf_size);
+        if end > self.buf_size {
+            return Err(Error::BadRequest);
+        }
         if self.contents.is_empty()
             || start < self.offset
             || start >= self.offset + self.contents.len()
-- 
2.43.0

