From 4bd06d2f8911a402df696ddfdd59ba73c7b4e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 1/5] fix: comp_ex() no longer panics on surrogate code points

Full_Composition_Exclusion was computed by converting the code point to a
char, which does not exist for U+D800..U+DFFF.
---
 src/unicode/normalization.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..0b0cfb5 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -114,6 +114,10 @@ pub(super) fn canonical_decomposition(s: Vec<char>) -> Vec<char>{
 
 pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
+    // Surrogates are not characters and do not decompose.
+    if std::char::from_u32(cp).is_none() {
+        return false;
+    }
     // Default value (the code point itself) is not singletons.
     let mut self_char = String::new();
     self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
@@ -135,6 +139,10 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
+    // Surrogates are not characters and do not decompose.
+    if std::char::from_u32(cp).is_none() {
+        return false;
+    }
     let decomposed = canonical_decomposition(
         vec![std::char::from_u32(code_point.to_u32()).unwrap()]
     );
-- 
2.43.0


From bd343c6f1fc966e45d6de116bfdaf4c6704441cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 2/5] fix: GB9c no longer joins consonants with a stale linker
 or consonant

The Indic conjunct state survived characters that end the conjunct (for
example a spacing mark or ZWNJ inside the cluster) and later consonants,
so a break before the next consonant was missed.
---
 src/unicode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..742349b 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -801,6 +801,12 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Prepare for GB9c
             if curr_ch.1.incb() == Incb::Consonant {
                 in_indic = true;
+                // A linker only counts after the last consonant.
+                indic_linker = false;
+            } else if curr_ch.1.incb() == Incb::None {
+                // The conjunct ends at any other character.
+                in_indic = false;
+                indic_linker = false;
             }
             if in_indic == true && curr_ch.1.incb() == Incb::Linker {
                 indic_linker = true;
-- 
2.43.0


From 811b945ca8a1292173402f792048bc1a614dee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 3/5] fix: GB11 joins pictographs only across Extend* ZWJ

The emoji state survived spacing marks and a first ZWJ, so ExtPict
SpacingMark ZWJ ExtPict and ExtPict ZWJ ZWJ ExtPict were not broken.
---
 src/unicode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index 742349b..6017a22 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -784,6 +784,7 @@ impl<'a> Iterator for BreakGraphemes<'a> {
         let mut curr = iter.next();
         let mut next = iter.next();
         let mut in_ext_pict = false;
+        let mut zwj_seen = false;
         let mut _ri_count = 0; // Ignore compiler not used warning.
         let mut in_indic = false;
         let mut indic_linker = false;
@@ -793,6 +794,12 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Prepare for GB11
             if curr_ch.1.ext_pict() {
                 in_ext_pict = true;
+                zwj_seen = false;
+            } else if curr_ch.1.gcb() == Gcb::ZWJ && !zwj_seen {
+                zwj_seen = true;
+            } else if curr_ch.1.gcb() != Gcb::EX || zwj_seen {
+                // Only ExtPict Extend* ZWJ may join the next ExtPict.
+                in_ext_pict = false;
             }
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
-- 
2.43.0


From a172c30da9202e8b35e03a9eae6efc48e3927447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 4/5] fix: long names of General_Category Pc and Pi

---
 src/unicode/ucd/property_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..862eb80 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
-- 
2.43.0


From 2cd41d6aef75fee9e7b12aec95dbd9b9c7fb58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 5/5] fix: long name of Canonical_Combining_Class 133

---
 src/unicode/ucd/property_names.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index 862eb80..977c749 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -512,7 +512,7 @@ pub(crate) fn ccc_name(prop: Ccc) -> PropertyName {
             abbr: "CCC132",
         },
         Ccc::CCC133 => PropertyName {
-            full: "RESERVED",
+            full: "CCC133",
             abbr: "CCC133",
         },
         Ccc::ATBL => PropertyName {
-- 
2.43.0

