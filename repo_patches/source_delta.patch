From 8f8fc3368713562992c00f2c313f44915b504687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 1/4] fix: GB11 applies only to ExtPict Extend* ZWJ, not to any
 earlier ExtPict in the cluster

---
 src/unicode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..bfd479c 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -784,6 +784,7 @@ impl<'a> Iterator for BreakGraphemes<'a> {
         let mut curr = iter.next();
         let mut next = iter.next();
         let mut in_ext_pict = false;
+        let mut after_zwj = false;
         let mut _ri_count = 0; // Ignore compiler not used warning.
         let mut in_indic = false;
         let mut indic_linker = false;
@@ -791,9 +792,13 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             let curr_ch = curr.unwrap();
             let next_ch = next.unwrap_or((self.slice.len(), '\u{0000}'));
             // Prepare for GB11
+            // A sequence is only ExtPict Extend* up to a single ZWJ.
             if curr_ch.1.ext_pict() {
                 in_ext_pict = true;
+            } else if after_zwj || !(curr_ch.1.gcb() == Gcb::EX || curr_ch.1.gcb() == Gcb::ZWJ) {
+                in_ext_pict = false;
             }
+            after_zwj = curr_ch.1.gcb() == Gcb::ZWJ;
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
                 _ri_count += 1;
-- 
2.43.0


From ba9423096798c195116e71c915b63f7546d80db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 2/4] fix: GB9c requires only Extend and Linker between the
 consonants

---
 src/unicode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index bfd479c..f9f61c6 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -804,8 +804,14 @@ impl<'a> Iterator for BreakGraphemes<'a> {
                 _ri_count += 1;
             }
             // Prepare for GB9c
+            // Only InCB Extend and Linker may stand between two consonants.
             if curr_ch.1.incb() == Incb::Consonant {
                 in_indic = true;
+                indic_linker = false;
+            }
+            if curr_ch.1.incb() == Incb::None {
+                in_indic = false;
+                indic_linker = false;
             }
             if in_indic == true && curr_ch.1.incb() == Incb::Linker {
                 indic_linker = true;
-- 
2.43.0


From 3d94bf83950bd0c863d8720fe32aa25bc881c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 3/4] fix: long names of Gc values Pc and Pi

---
 src/unicode/ucd/property_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..862eb80 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
-- 
2.43.0


From a7b5f4f8eb28283ff6df49d0bec1c9fb637a4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 4/4] fix: comp_ex() of surrogate code points returns false
 instead of panicking

---
 src/unicode/normalization.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..5ec8abe 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -115,8 +115,12 @@ pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{
 pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
     // Default value (the code point itself) is not singletons.
+    // Surrogates are no characters and never have a decomposition.
     let mut self_char = String::new();
-    self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
+    match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => self_char.push(ch),
+        None => return false,
+    }
     if code_point.dm() == self_char {
         return false;
     }
@@ -135,9 +139,12 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
-    let decomposed = canonical_decomposition(
-        vec![std::char::from_u32(code_point.to_u32()).unwrap()]
-    );
+    // Surrogates are no characters and never have a decomposition.
+    let ch = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => ch,
+        None => return false,
+    };
+    let decomposed = canonical_decomposition(vec![ch]);
     if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
         return true;
     }
-- 
2.43.0

