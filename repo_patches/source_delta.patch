From ffb1d01f9fc367369fd0fb0501a5d25386612a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 01/26] fix: apply rule L1 to the requested line, not to the
 start of the text

visual_runs() indexed original_classes and levels with offsets relative to
the line, so whitespace levels were reset (and classes were read) at the
wrong place for every line that does not start at byte 0, with a panic on
a non-character boundary for some texts.
---
 unic/bidi/src/bidi_info.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..ca4f1c3 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -295,7 +295,7 @@ impl<'text> BidiInfo<'text> {
         let mut reset_from: Option<usize> = Some(0);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
-            match self.original_classes[i] {
+            match self.original_classes[line.start + i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
                 // Segment separator, Paragraph separator
@@ -318,7 +318,7 @@ impl<'text> BidiInfo<'text> {
             }
             if let (Some(from), Some(to)) = (reset_from, reset_to) {
                 for j in from..to {
-                    levels[j] = para.level;
+                    levels[line.start + j] = para.level;
                 }
                 reset_from = None;
                 reset_to = None;
@@ -326,7 +326,7 @@ impl<'text> BidiInfo<'text> {
         }
         if let Some(from) = reset_from {
             for j in from..line_str.len() {
-                levels[j] = para.level;
+                levels[line.start + j] = para.level;
             }
         }
 
-- 
2.43.0


From 96e03d56f282fd9fb9101d1f8324bf6458ccdfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 02/26] fix: reorder runs by the levels after rule L1

visual_runs() used the levels from before L1 when reversing runs, so a
trailing whitespace or tab that L1 had reset still moved with its old level.
---
 unic/bidi/src/bidi_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index ca4f1c3..16ed2b2 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -363,7 +363,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -371,7 +371,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From 420614247092e488fb1d42e00323bc31d58e14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 03/26] fix: reject out-of-range numbers when deserializing a
 Level

The derived Deserialize built a Level from any u8, breaking the documented
guarantee that a Level is always valid.
---
 unic/bidi/src/level.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/level.rs b/unic/bidi/src/level.rs
index b62e14e..6d77c4a 100644
--- a/unic/bidi/src/level.rs
+++ b/unic/bidi/src/level.rs
@@ -31,9 +31,26 @@ use unic_ucd_bidi::BidiClass;
 ///
 /// <https://www.unicode.org/reports/tr9/#BD2>
 #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 pub struct Level(u8);
 
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for Level {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "Level")]
+        struct Number(u8);
+
+        let Number(number) = Number::deserialize(deserializer)?;
+        Level::new(number).map_err(|_| {
+            serde::de::Error::invalid_value(
+                serde::de::Unexpected::Unsigned(u64::from(number)),
+                &"a bidi embedding level number",
+            )
+        })
+    }
+}
+
 /// LTR level with smallest number value (0).
 pub const LTR_LEVEL: Level = Level(0);
 
-- 
2.43.0


From 04b0afda2b6ae094eb89dffa82603c98cb13402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 04/26] fix: link isolating runs across characters removed by
 X9

A level run that ends with an isolate initiator followed by removed
characters (RLI BN ... PDI) was not joined with the run of the matching PDI,
and its eos was computed from the wrong level.
---
 unic/bidi/src/prepare.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/unic/bidi/src/prepare.rs b/unic/bidi/src/prepare.rs
index e75ac19..34ef8b7 100644
--- a/unic/bidi/src/prepare.rs
+++ b/unic/bidi/src/prepare.rs
@@ -61,8 +61,13 @@ pub fn isolating_run_sequences(
         assert!(run.len() > 0);
         assert!(!stack.is_empty());
 
-        let start_class = original_classes[run.start];
-        let end_class = original_classes[run.end - 1];
+        // Characters removed by X9 are neither the first nor the last character of a level run.
+        let mut kept = original_classes[run.clone()]
+            .iter()
+            .cloned()
+            .filter(not_removed_by_x9);
+        let start_class = kept.next().unwrap_or(original_classes[run.start]);
+        let end_class = kept.last().unwrap_or(start_class);
 
         let mut sequence = if start_class == PDI && stack.len() > 1 {
             // Continue a previous sequence interrupted by an isolate.
@@ -115,7 +120,11 @@ pub fn isolating_run_sequences(
             };
 
             // Get the level of the next non-removed char after the runs.
-            let succ_level = if matches!(original_classes[end_of_seq - 1], RLI | LRI | FSI) {
+            let last_class = original_classes[start_of_seq..end_of_seq]
+                .iter()
+                .cloned()
+                .rfind(not_removed_by_x9);
+            let succ_level = if matches!(last_class, Some(RLI) | Some(LRI) | Some(FSI)) {
                 para_level
             } else {
                 match original_classes[end_of_seq..]
-- 
2.43.0


From fc4c116a4082af15576c8df102071aafdaac9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 05/26] fix: apply the weak type rules W1-W7 one after another,
 per character

Applying them in a single pass over bytes let later rules change what
earlier ones see (W2 never fired, as AL had already become R), and let W4
take another byte of the same character for the next character.
---
 unic/bidi/src/bidi_info.rs |   2 +-
 unic/bidi/src/implicit.rs  | 183 ++++++++++++++++++-------------------
 2 files changed, 89 insertions(+), 96 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 16ed2b2..6e9293c 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -203,7 +203,7 @@ impl<'text> BidiInfo<'text> {
 
             let sequences = prepare::isolating_run_sequences(para.level, original_classes, levels);
             for sequence in &sequences {
-                implicit::resolve_weak(sequence, processing_classes);
+                implicit::resolve_weak(text, sequence, processing_classes);
                 implicit::resolve_neutral(sequence, levels, processing_classes);
             }
             implicit::resolve_levels(processing_classes, levels);
diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 0627f16..37e28fa 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -17,120 +17,113 @@ use unic_ucd_bidi::bidi_class::abbr_names::*;
 use unic_ucd_bidi::BidiClass;
 
 use super::level::Level;
-use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence, LevelRun};
+use super::prepare::{not_removed_by_x9, removed_by_x9, IsolatingRunSequence};
 
 /// 3.3.4 Resolving Weak Types
 ///
 /// <https://www.unicode.org/reports/tr9/#Resolving_Weak_Types>
-pub fn resolve_weak(sequence: &IsolatingRunSequence, processing_classes: &mut [BidiClass]) {
-    // FIXME (#8): This function applies steps W1-W6 in a single pass.  This can produce
-    // incorrect results in cases where a "later" rule changes the value of `prev_class` seen
-    // by an "earlier" rule.  We should either split this into separate passes, or preserve
-    // extra state so each rule can see the correct previous class.
-
-    // FIXME: Also, this could be the cause of increased failure for using longer-UTF-8 chars in
-    // conformance tests, like BidiTest:69635 (AL ET EN)
-
-    let mut prev_class = sequence.sos;
-    let mut last_strong_is_al = false;
-    let mut et_run_indices = Vec::new(); // for W5
-
-    // Like sequence.runs.iter().flat_map(Clone::clone), but make indices itself clonable.
-    fn id(x: LevelRun) -> LevelRun {
-        x
-    }
-    let mut indices = sequence
+pub fn resolve_weak(
+    text: &str,
+    sequence: &IsolatingRunSequence,
+    processing_classes: &mut [BidiClass],
+) {
+    // Byte index of each character of the sequence, without the ones removed by X9.
+    let indices: Vec<usize> = sequence
         .runs
         .iter()
-        .cloned()
-        .flat_map(id as fn(LevelRun) -> LevelRun);
-
-    while let Some(i) = indices.next() {
-        match processing_classes[i] {
-            // https://www.unicode.org/reports/tr9/#W1
-            NSM => {
-                processing_classes[i] = match prev_class {
-                    RLI | LRI | FSI | PDI => ON,
-                    _ => prev_class,
-                };
-            }
-            EN => {
-                if last_strong_is_al {
-                    // W2. If previous strong char was AL, change EN to AN.
-                    processing_classes[i] = AN;
-                } else {
-                    // W5. If a run of ETs is adjacent to an EN, change the ETs to EN.
-                    for j in &et_run_indices {
-                        processing_classes[*j] = EN;
-                    }
-                    et_run_indices.clear();
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W3>
-            AL => processing_classes[i] = R,
-
-            // <https://www.unicode.org/reports/tr9/#W4>
-            ES | CS => {
-                let next_class = indices
-                    .clone()
-                    .map(|j| processing_classes[j])
-                    .find(not_removed_by_x9)
-                    .unwrap_or(sequence.eos);
-                processing_classes[i] = match (prev_class, processing_classes[i], next_class) {
-                    (EN, ES, EN) | (EN, CS, EN) => EN,
-                    (AN, CS, AN) => AN,
-                    (_, _, _) => ON,
-                }
-            }
-            // <https://www.unicode.org/reports/tr9/#W5>
-            ET => {
-                match prev_class {
-                    EN => processing_classes[i] = EN,
-                    _ => et_run_indices.push(i), // In case this is followed by an EN.
-                }
-            }
-            class => {
-                if removed_by_x9(class) {
-                    continue;
-                }
-            }
+        .flat_map(Clone::clone)
+        .filter(|&i| text.is_char_boundary(i) && not_removed_by_x9(&processing_classes[i]))
+        .collect();
+    let mut classes: Vec<BidiClass> = indices.iter().map(|&i| processing_classes[i]).collect();
+
+    // W1. NSM takes the type of the previous character.
+    //
+    // <https://www.unicode.org/reports/tr9/#W1>
+    let mut prev_class = sequence.sos;
+    for class in &mut classes {
+        if *class == NSM {
+            *class = match prev_class {
+                RLI | LRI | FSI | PDI => ON,
+                _ => prev_class,
+            };
         }
+        prev_class = *class;
+    }
 
-        prev_class = processing_classes[i];
-        match prev_class {
-            L | R => {
-                last_strong_is_al = false;
-            }
+    // W2. If previous strong char was AL, change EN to AN.
+    // W3. Change all AL to R.
+    //
+    // <https://www.unicode.org/reports/tr9/#W2>
+    // <https://www.unicode.org/reports/tr9/#W3>
+    let mut last_strong_is_al = false;
+    for class in &mut classes {
+        match *class {
+            L | R => last_strong_is_al = false,
             AL => {
                 last_strong_is_al = true;
+                *class = R;
             }
+            EN if last_strong_is_al => *class = AN,
             _ => {}
         }
-        if prev_class != ET {
-            // W6. If we didn't find an adjacent EN, turn any ETs into ON instead.
-            for j in &et_run_indices {
-                processing_classes[*j] = ON;
+    }
+
+    // W4. A single separator between two numbers of the same type takes that type.
+    //
+    // <https://www.unicode.org/reports/tr9/#W4>
+    for i in 1..classes.len().saturating_sub(1) {
+        classes[i] = match (classes[i - 1], classes[i], classes[i + 1]) {
+            (EN, ES, EN) | (EN, CS, EN) => EN,
+            (AN, CS, AN) => AN,
+            (_, class, _) => class,
+        };
+    }
+
+    // W5. If a run of ETs is adjacent to an EN, change the ETs to EN.
+    // W6. Otherwise, turn separators and terminators into ON.
+    //
+    // <https://www.unicode.org/reports/tr9/#W5>
+    // <https://www.unicode.org/reports/tr9/#W6>
+    let mut i = 0;
+    while i < classes.len() {
+        match classes[i] {
+            ET => {
+                let run_len = classes[i..].iter().take_while(|&&c| c == ET).count();
+                let after_en = i > 0 && classes[i - 1] == EN;
+                let before_en = classes.get(i + run_len) == Some(&EN);
+                let new_class = if after_en || before_en { EN } else { ON };
+                for class in &mut classes[i..(i + run_len)] {
+                    *class = new_class;
+                }
+                i += run_len;
+                continue;
             }
-            et_run_indices.clear();
+            ES | CS => classes[i] = ON,
+            _ => {}
         }
+        i += 1;
     }
 
     // W7. If the previous strong char was L, change EN to L.
+    //
+    // <https://www.unicode.org/reports/tr9/#W7>
     let mut last_strong_is_l = sequence.sos == L;
-    for run in &sequence.runs {
-        for i in run.clone() {
-            match processing_classes[i] {
-                EN if last_strong_is_l => {
-                    processing_classes[i] = L;
-                }
-                L => {
-                    last_strong_is_l = true;
-                }
-                R | AL => {
-                    last_strong_is_l = false;
-                }
-                _ => {}
-            }
+    for class in &mut classes {
+        match *class {
+            L => last_strong_is_l = true,
+            R => last_strong_is_l = false,
+            EN if last_strong_is_l => *class = L,
+            _ => {}
+        }
+    }
+
+    // Write the resolved classes back to all bytes of each character.
+    for (&i, &class) in indices.iter().zip(&classes) {
+        processing_classes[i] = class;
+        let mut j = i + 1;
+        while !text.is_char_boundary(j) {
+            processing_classes[j] = class;
+            j += 1;
         }
     }
 }
-- 
2.43.0


From 55f49129afa445c4ca4451f725eac11f9d154d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 06/26] fix: ignore characters removed by X9 when resolving
 neutrals

A removed character between a strong character and a neutral hid the strong
type from rules N1 and N2.
---
 unic/bidi/src/implicit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unic/bidi/src/implicit.rs b/unic/bidi/src/implicit.rs
index 37e28fa..07d4803 100644
--- a/unic/bidi/src/implicit.rs
+++ b/unic/bidi/src/implicit.rs
@@ -141,6 +141,11 @@ pub fn resolve_neutral(
     let mut prev_class = sequence.sos;
 
     while let Some(mut i) = indices.next() {
+        // Characters removed by X9 have no effect on the ones around them.
+        if removed_by_x9(processing_classes[i]) {
+            continue;
+        }
+
         // N0. Process bracket pairs.
         // TODO
 
-- 
2.43.0


From 747e1b5a2d9463369ac93fcf745d08cbd664ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 07/26] fix: skip the surrogate gap at both ends of a parallel
 range

---
 unic/char/range/src/par_iter.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..a30fbeb 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,13 +50,14 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
-        let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
-            high - SKIP_LENGTH
-        } else {
-            high
-        })
+        let compact = |ch: char| {
+            if ch >= AFTER_SURROGATE {
+                ch as u32 - SKIP_LENGTH
+            } else {
+                ch as u32
+            }
+        };
+        compact(self.low)..(compact(self.high) + 1)
     }
 }
 
-- 
2.43.0


From 16d4bb43eab86069d896bb9dae24463a14963bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 08/26] fix: abbreviate Sentence_Break=Extend to EX, as UCD
 does

---
 unic/ucd/segment/src/sentence_break.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/segment/src/sentence_break.rs b/unic/ucd/segment/src/sentence_break.rs
index 8f1ffc2..5b622c8 100644
--- a/unic/ucd/segment/src/sentence_break.rs
+++ b/unic/ucd/segment/src/sentence_break.rs
@@ -57,7 +57,7 @@ char_property! {
         /// General_Category = Spacing_Mark
         /// ```
         Extend {
-            abbr => Extend,
+            abbr => EX,
             long => Extend,
             human => "Extend",
         }
-- 
2.43.0


From 7bd076fa976a96d4b371ee7d513018c43e5be5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 09/26] fix: make Age's Ord agree with its PartialOrd

---
 unic/ucd/age/src/age.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..4603981 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -85,10 +85,16 @@ impl Age {
 
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
         match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
+            cmp::Ordering::Greater => cmp::Ordering::Less,
+            cmp::Ordering::Less => cmp::Ordering::Greater,
+            cmp::Ordering::Equal => cmp::Ordering::Equal,
         }
     }
 }
-- 
2.43.0


From 026781324949d9284ef4a51ccbd23d0f715ac994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 10/26] fix: has_ltr() of a string looks for left-to-right
 characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From 50ab43517ea4b9572d23b1b0373fee177845e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 11/26] fix: do not compose a Hangul LV syllable with U+11A7,
 which is no trailing consonant

---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From d6ce15530b4eaeb3ca790375d5943fe23de9d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 12/26] fix: order names as their text, in every rule

---
 unic/ucd/name/src/name.rs | 75 ++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/unic/ucd/name/src/name.rs b/unic/ucd/name/src/name.rs
index 8256764..144f9ba 100644
--- a/unic/ucd/name/src/name.rs
+++ b/unic/ucd/name/src/name.rs
@@ -129,6 +129,44 @@ impl Name {
         }
         jamos
     }
+
+    /// Bytes of the name, as displayed.
+    fn bytes(&self) -> impl Iterator<Item = u8> {
+        let (prefix, jamos, code, digits, pieces): (&'static str, _, _, _, &'static [&'static str]) =
+            match *self {
+                Name::NR1(ch) => (
+                    PREFIX_HANGUL_SYLLABLE,
+                    Name::collect_jamo_short_names(ch),
+                    0,
+                    0,
+                    &[],
+                ),
+                Name::NR2(prefix, ch) => (
+                    prefix,
+                    [None; JAMO_BUFFER_SIZE],
+                    ch as u32,
+                    Name::number_of_hex_digits(ch),
+                    &[],
+                ),
+                Name::NR3(pieces) => ("", [None; JAMO_BUFFER_SIZE], 0, 0, pieces),
+            };
+        prefix
+            .bytes()
+            .chain(
+                (0..JAMO_BUFFER_SIZE)
+                    .filter_map(move |index| jamos[index])
+                    .flat_map(str::bytes),
+            )
+            .chain(
+                (0..digits)
+                    .rev()
+                    .map(move |index| b"0123456789ABCDEF"[(code >> (4 * index) & 0xF) as usize]),
+            )
+            .chain(pieces.iter().enumerate().flat_map(|(index, piece)| {
+                let separator = if index == 0 { "" } else { " " };
+                separator.bytes().chain(piece.bytes())
+            }))
+    }
 }
 
 impl fmt::Display for Name {
@@ -167,42 +205,7 @@ impl fmt::Display for Name {
 
 impl Ord for Name {
     fn cmp(&self, other: &Name) -> Ordering {
-        match *self {
-            Name::NR1(ch) => match *other {
-                Name::NR1(other_ch) => {
-                    let jamos = Name::collect_jamo_short_names(ch);
-                    let other_jamos = Name::collect_jamo_short_names(other_ch);
-                    jamos.cmp(&other_jamos)
-                }
-                Name::NR2(other_prefix, _) => PREFIX_HANGUL_SYLLABLE.cmp(other_prefix),
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    PREFIX_HANGUL_SYLLABLE.cmp(first)
-                }
-            },
-            Name::NR2(prefix, ch) => match *other {
-                Name::NR1(_) => prefix.cmp(PREFIX_HANGUL_SYLLABLE),
-                Name::NR2(other_prefix, other_ch) => {
-                    if prefix == other_prefix {
-                        ch.cmp(&other_ch)
-                    } else {
-                        prefix.cmp(other_prefix)
-                    }
-                }
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    prefix.cmp(first)
-                }
-            },
-            Name::NR3(pieces) => {
-                let (first, _) = pieces.split_first().unwrap();
-                match *other {
-                    Name::NR1(_) => first.cmp(&PREFIX_HANGUL_SYLLABLE),
-                    Name::NR2(other_prefix, _) => first.cmp(&other_prefix),
-                    Name::NR3(other_pieces) => pieces.cmp(other_pieces),
-                }
-            }
-        }
+        self.bytes().cmp(other.bytes())
     }
 }
 
-- 
2.43.0


From 973a08c4b553562feca98c1eaadf5aea82d50e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 13/26] fix: default Bidi_Class of default ignorables and
 Syriac Supplement

---
 gen/src/writer/ucd/bidi.rs          |  7 +++++++
 unic/ucd/bidi/tables/bidi_class.rsv | 11 ++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gen/src/writer/ucd/bidi.rs b/gen/src/writer/ucd/bidi.rs
index 78b77e1..4e0fec5 100644
--- a/gen/src/writer/ucd/bidi.rs
+++ b/gen/src/writer/ucd/bidi.rs
@@ -13,6 +13,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::Display;
 use std::path::Path;
 
+use crate::source::ucd::derived_core_properties::DERIVED_CORE_PROPERTIES;
 use crate::source::ucd::prop_list::PROP_LIST;
 use crate::source::ucd::readme::UNICODE_VERSION;
 use crate::source::ucd::unicode_data::UNICODE_DATA;
@@ -33,6 +34,7 @@ pub fn generate(dir: &Path) {
 // Ref: <https://www.unicode.org/Public/UNIDATA/extracted/DerivedBidiClass.txt>
 const BIDI_CLASS_DEFAULTS: &[(u32, u32, &str)] = &[
     (0x0600, 0x07BF, "AL"),
+    (0x0860, 0x086F, "AL"),
     (0x08A0, 0x08FF, "AL"),
     (0xFB50, 0xFDCF, "AL"),
     (0xFDF0, 0xFDFF, "AL"),
@@ -54,6 +56,11 @@ fn emit_bidi_class(dir: &Path) {
         .map(|x| (x.character, x.bidi_class.as_str()))
         .collect();
 
+    // Unassigned code points that are default-ignorable are boundary neutrals, wherever they are.
+    for &c in &DERIVED_CORE_PROPERTIES.default_ignorable_code_point {
+        map.entry(c).or_insert("BN");
+    }
+
     for &(start, end, default_value) in BIDI_CLASS_DEFAULTS {
         for codepoint in start..(end + 1) {
             if let Some(c) = char::from_u32(codepoint) {
diff --git a/unic/ucd/bidi/tables/bidi_class.rsv b/unic/ucd/bidi/tables/bidi_class.rsv
index 6d65f54..47336b5 100644
--- a/unic/ucd/bidi/tables/bidi_class.rsv
+++ b/unic/ucd/bidi/tables/bidi_class.rsv
@@ -143,8 +143,8 @@ CharDataTable::Range(&[
     (chars!('\u{82e}'..='\u{858}'), R),
     (chars!('\u{859}'..='\u{85b}'), NSM),
     (chars!('\u{85c}'..='\u{85f}'), R),
-    (chars!('\u{860}'..='\u{86a}'), AL),
-    (chars!('\u{86b}'..='\u{89f}'), R),
+    (chars!('\u{860}'..='\u{86f}'), AL),
+    (chars!('\u{870}'..='\u{89f}'), R),
     (chars!('\u{8a0}'..='\u{8d3}'), AL),
     (chars!('\u{8d4}'..='\u{8e1}'), NSM),
     (chars!('\u{8e2}'..='\u{8e2}'), AN),
@@ -610,7 +610,7 @@ CharDataTable::Range(&[
     (chars!('\u{2044}'..='\u{2044}'), CS),
     (chars!('\u{2045}'..='\u{205e}'), ON),
     (chars!('\u{205f}'..='\u{205f}'), WS),
-    (chars!('\u{2060}'..='\u{2064}'), BN),
+    (chars!('\u{2060}'..='\u{2065}'), BN),
     (chars!('\u{2066}'..='\u{2066}'), LRI),
     (chars!('\u{2067}'..='\u{2067}'), RLI),
     (chars!('\u{2068}'..='\u{2068}'), FSI),
@@ -911,6 +911,7 @@ CharDataTable::Range(&[
     (chars!('\u{ffe2}'..='\u{ffe4}'), ON),
     (chars!('\u{ffe5}'..='\u{ffe6}'), ET),
     (chars!('\u{ffe8}'..='\u{ffee}'), ON),
+    (chars!('\u{fff0}'..='\u{fff8}'), BN),
     (chars!('\u{fff9}'..='\u{fffd}'), ON),
     (chars!('\u{10000}'..='\u{1000b}'), L),
     (chars!('\u{1000d}'..='\u{10026}'), L),
@@ -1290,9 +1291,9 @@ CharDataTable::Range(&[
     (chars!('\u{2b820}'..='\u{2cea1}'), L),
     (chars!('\u{2ceb0}'..='\u{2ebe0}'), L),
     (chars!('\u{2f800}'..='\u{2fa1d}'), L),
-    (chars!('\u{e0001}'..='\u{e0001}'), BN),
-    (chars!('\u{e0020}'..='\u{e007f}'), BN),
+    (chars!('\u{e0000}'..='\u{e00ff}'), BN),
     (chars!('\u{e0100}'..='\u{e01ef}'), NSM),
+    (chars!('\u{e01f0}'..='\u{e0fff}'), BN),
     (chars!('\u{f0000}'..='\u{ffffd}'), L),
     (chars!('\u{100000}'..='\u{10fffd}'), L),
 ])
-- 
2.43.0


From aa3e08e638515e198a0ee49b2be602fcb9e7d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 14/26] fix: word boundaries after an emoji modifier, and after
 ZWJ and what it glues

---
 unic/segment/src/word.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..04851d3 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -230,13 +230,20 @@ impl<'a> Iterator for WordBounds<'a> {
             // When prev_zwj is true, for the purposes of WB3c, we are in the Zwj state,
             // however we are in the previous state for the purposes of all other rules.
             if prev_zwj {
-                match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
-                        state = Emoji;
-                        continue;
+                if cat == WB::GlueAfterZwj || cat == WB::EBaseGAZ {
+                    match state {
+                        // what we were looking for isn't here: rewind (in if statement below)
+                        FormatExtend(RequireLetter)
+                        | FormatExtend(RequireHLetter)
+                        | FormatExtend(RequireNumeric) => break,
+                        _ => {}
                     }
-                    _ => (),
+                    // no other rule joins anything to a Glue_After_Zwj
+                    state = match cat {
+                        WB::EBaseGAZ => Emoji,
+                        _ => FormatExtend(AcceptNone),
+                    };
+                    continue;
                 }
             }
             // Don't use `continue` in this match without updating `cat`
@@ -353,7 +360,7 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => FormatExtend(AcceptNone),
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 521c2f599946af8799c69d6bc6b49ed14c1ecc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 15/26] fix: an E_Base found backwards joins nothing before a
 ZWJ

---
 unic/segment/src/word.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04851d3..d8439ca 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -587,7 +587,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBase => break,
+                    WB::EBaseGAZ => Zwj, // rule WB3c
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From b60c19193f50ea6f46dbb5e58721b1f482eb4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/26] fix: grapheme cursor: decide with the context that was
 asked for

---
 unic/segment/src/grapheme.rs | 77 ++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 42 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..2eb9cdf 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -452,17 +452,15 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
-            let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
-                self.decide(false); // GB9b
-                return;
-            }
-        }
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            _ => {
+                // the context ends at the cursor
+                let ch = chunk.chars().rev().next().unwrap();
+                self.cat_before = Some(GCB::of(ch));
+                self.handle_pair(chunk, chunk_start);
+            }
         }
     }
 
@@ -474,11 +472,6 @@ impl GraphemeCursor {
         };
     }
 
-    fn decision(&mut self, is_break: bool) -> Result<bool, GraphemeIncomplete> {
-        self.decide(is_break);
-        Ok(is_break)
-    }
-
     fn is_boundary_result(&self) -> Result<bool, GraphemeIncomplete> {
         if self.state == GraphemeState::Break {
             Ok(true)
@@ -491,6 +484,31 @@ impl GraphemeCursor {
         }
     }
 
+    // Decide by the categories on both sides of the cursor, which must be known, and the text
+    // before it, of which `chunk` is the end.
+    fn handle_pair(&mut self, chunk: &str, chunk_start: usize) {
+        match check_pair(self.cat_before.unwrap(), self.cat_after.unwrap()) {
+            PairResult::NotBreak => self.decide(false),
+            PairResult::Break => self.decide(true),
+            PairResult::Extended => {
+                let is_extended = self.is_extended;
+                self.decide(!is_extended)
+            }
+            PairResult::Regional => {
+                if let Some(ris_count) = self.ris_count {
+                    self.decide((ris_count % 2) == 0);
+                } else {
+                    self.state = GraphemeState::Regional;
+                    self.handle_regional(chunk, chunk_start);
+                }
+            }
+            PairResult::Emoji => {
+                self.state = GraphemeState::Emoji;
+                self.handle_emoji(chunk, chunk_start);
+            }
+        }
+    }
+
     fn handle_regional(&mut self, chunk: &str, chunk_start: usize) {
         let mut ris_count = self.ris_count.unwrap_or(0);
         for ch in chunk.chars().rev() {
@@ -581,41 +599,16 @@ impl GraphemeCursor {
             let ch = chunk[offset_in_chunk..].chars().next().unwrap();
             self.cat_after = Some(GCB::of(ch));
         }
-        if self.offset == chunk_start {
-            let mut need_pre_context = true;
-            match self.cat_after.unwrap() {
-                GCB::RegionalIndicator => self.state = GraphemeState::Regional,
-                GCB::EModifier => self.state = GraphemeState::Emoji,
-                _ => need_pre_context = self.cat_before.is_none(),
-            }
-            if need_pre_context {
+        if self.cat_before.is_none() {
+            if self.offset == chunk_start {
                 self.pre_context_offset = Some(chunk_start);
                 return Err(GraphemeIncomplete::PreContext(chunk_start));
             }
-        }
-        if self.cat_before.is_none() {
             let ch = chunk[..offset_in_chunk].chars().rev().next().unwrap();
             self.cat_before = Some(GCB::of(ch));
         }
-        match check_pair(self.cat_before.unwrap(), self.cat_after.unwrap()) {
-            PairResult::NotBreak => self.decision(false),
-            PairResult::Break => self.decision(true),
-            PairResult::Extended => {
-                let is_extended = self.is_extended;
-                self.decision(!is_extended)
-            }
-            PairResult::Regional => {
-                if let Some(ris_count) = self.ris_count {
-                    return self.decision((ris_count % 2) == 0);
-                }
-                self.handle_regional(&chunk[..offset_in_chunk], chunk_start);
-                self.is_boundary_result()
-            }
-            PairResult::Emoji => {
-                self.handle_emoji(&chunk[..offset_in_chunk], chunk_start);
-                self.is_boundary_result()
-            }
-        }
+        self.handle_pair(&chunk[..offset_in_chunk], chunk_start);
+        self.is_boundary_result()
     }
 
     /// Find the next boundary after the current cursor position. Only a part of
-- 
2.43.0


From c624507f8aafb44e0da7ff7be79460274b854d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 17/26] fix: grapheme cursor: set_cursor() forgets a suspended
 request

---
 unic/segment/src/grapheme.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 2eb9cdf..6ebb72a 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -394,18 +394,19 @@ impl GraphemeCursor {
     /// assert_eq!(cursor.cur_cursor(), 2);
     /// ```
     pub fn set_cursor(&mut self, offset: usize) {
-        if offset != self.offset {
-            self.offset = offset;
-            self.state = if offset == 0 || offset == self.len {
-                GraphemeState::Break
-            } else {
-                GraphemeState::Unknown
-            };
-            // reset state derived from text around cursor
-            self.cat_before = None;
-            self.cat_after = None;
-            self.ris_count = None;
-        }
+        self.offset = offset;
+        self.state = if offset == 0 || offset == self.len {
+            GraphemeState::Break
+        } else {
+            GraphemeState::Unknown
+        };
+        // reset state derived from text around cursor
+        self.cat_before = None;
+        self.cat_after = None;
+        self.ris_count = None;
+        // forget the suspended request, if any
+        self.pre_context_offset = None;
+        self.resuming = false;
     }
 
     /// The current offset of the cursor. Equal to the last value provided to
-- 
2.43.0


From e3b8cffbf9c03507010007f03c5bc96d1add220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 18/26] fix: grapheme cursor: report chunks that do not reach,
 or end at, the cursor

---
 unic/segment/src/grapheme.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 6ebb72a..b07a9be 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -587,8 +587,10 @@ impl GraphemeCursor {
         if self.state == GraphemeState::NotBreak {
             return Ok(false);
         }
-        if (self.offset < chunk_start || self.offset >= chunk_start + chunk.len())
-            && (self.offset > chunk_start + chunk.len() || self.cat_after.is_none())
+        let chunk_end = chunk_start + chunk.len();
+        if self.offset < chunk_start
+            || self.offset > chunk_end
+            || (self.offset == chunk_end && self.cat_after.is_none())
         {
             return Err(GraphemeIncomplete::InvalidOffset);
         }
@@ -652,8 +654,14 @@ impl GraphemeCursor {
         if self.offset == self.len {
             return Ok(None);
         }
+        if self.offset < chunk_start || self.offset > chunk_start + chunk.len() {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[self.offset - chunk_start..].chars();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::NextChunk),
+        };
         loop {
             if self.resuming {
                 if self.cat_after.is_none() {
@@ -731,13 +739,15 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if self.offset < chunk_start || self.offset > chunk_start + chunk.len() {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::PrevChunk),
+        };
         loop {
-            if self.offset == chunk_start {
-                self.resuming = true;
-                return Err(GraphemeIncomplete::PrevChunk);
-            }
             if self.resuming {
                 self.cat_before = Some(GCB::of(ch));
             } else {
@@ -757,6 +767,8 @@ impl GraphemeCursor {
                 } else if self.offset == 0 {
                     self.decide(true);
                 } else {
+                    // the chunk given next ends at the cursor
+                    self.cat_after = Some(GCB::of(ch));
                     self.resuming = true;
                     return Err(GraphemeIncomplete::PrevChunk);
                 }
-- 
2.43.0


From 5ba5036ced555ac4928472b4f3dbd9d35babcabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 19/26] fix: punycode encode fails on overflow instead of
 panicking

---
 unic/idna/punycode/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..f50d087 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -195,10 +195,10 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = match delta.checked_add(1) {
+                    Some(delta) => delta,
+                    None => return None, // Overflow
+                };
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
-- 
2.43.0


From 580caebe7c75dc534b86c1ead9ea0b8cfe89e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 20/26] fix: punycode decode rejects basic code points that are
 not ASCII

---
 unic/idna/punycode/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index f50d087..bb10942 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -84,6 +84,9 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
             },
         ),
     };
+    if output.iter().any(|c: &char| !c.is_ascii()) {
+        return None; // Not a basic code point
+    }
     let mut code_point = INITIAL_N;
     let mut bias = INITIAL_BIAS;
     let mut i = 0;
-- 
2.43.0


From 533e1b75d6654322d3a0c147587793e53e2cd1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 21/26] fix: look for right-to-left characters in the mapped
 and normalized domain

---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..709638d 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From f6c4cb426ada53c80d54ad338aaa261befea5208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 22/26] fix: keep a label that is not valid Punycode in the
 converted domain

---
 unic/idna/src/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 709638d..c98583f 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -265,7 +265,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                     validate(&decoded_label, is_bidi_domain, flags, errors);
                     validated.push_str(&decoded_label)
                 }
-                None => errors.push(Error::PunycodeError),
+                None => {
+                    errors.push(Error::PunycodeError);
+                    validated.push_str(label)
+                }
             }
         } else {
             validate(label, is_bidi_domain, flags, errors);
-- 
2.43.0


From 50395083807f13d57ca4203f3b44d950080c2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 23/26] fix: leave characters disallowed by STD3 rules unmapped
 in the converted domain

---
 unic/idna/src/process.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index c98583f..96d4e21 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -44,8 +44,10 @@ fn map_char(codepoint: char, flags: Flags, output: &mut String, errors: &mut Vec
         Mapping::DisallowedStd3Mapped(slice) => {
             if flags.use_std3_ascii_rules {
                 errors.push(Error::DissallowedMappedInStd3);
+                output.push(codepoint)
+            } else {
+                output.push_str(slice)
             }
-            output.push_str(slice)
         }
     }
 }
-- 
2.43.0


From 4022881ce090320d5d08aa37bc4a9edc6da7c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 24/26] fix: reject an A-label that decodes to another A-label

---
 unic/idna/src/process.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 96d4e21..d33a396 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -265,6 +265,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                         ..flags
                     };
                     validate(&decoded_label, is_bidi_domain, flags, errors);
+                    // An A-label of an A-label would be decoded further the next time.
+                    if decoded_label.starts_with(PUNYCODE_PREFIX) {
+                        errors.push(Error::ValidityCriteria);
+                    }
                     validated.push_str(&decoded_label)
                 }
                 None => {
-- 
2.43.0


From cd7a4db44c1aef9d39981b8bb5377d843ad655f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 25/26] fix: reorder a line whose characters are all at the
 highest bidi level

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 6e9293c..5749a6c 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -357,7 +357,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // The whole line is at the highest level, which is even.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From cfd6cdcd1f30d2ca20f50b36cb8f41731e2ee23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 26/26] fix: unic-echo: report a failure to write output
 without a newline at its end

---
 apps/cli/src/bin/unic-echo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/cli/src/bin/unic-echo.rs b/apps/cli/src/bin/unic-echo.rs
index d0939b0..3d30b0f 100644
--- a/apps/cli/src/bin/unic-echo.rs
+++ b/apps/cli/src/bin/unic-echo.rs
@@ -195,5 +195,8 @@ fn run() -> Result<()> {
         writeln!(output)?;
     }
 
+    // Without a newline at the end, the standard output still holds (part of) the last line.
+    output.flush()?;
+
     Ok(())
 }
-- 
2.43.0

