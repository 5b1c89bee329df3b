From 438cba638542424f8274eb7d4cf80c4b900991f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 01/24] fix: compare case-insensitively without requiring equal
 byte lengths

Lowercasing can change the byte length of a value (e.g. U+1E9E or U+212A),
so the relational operators == and != disagreed with in, =^ and =$ when
case is ignored.
---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From e825f970d29a8370f77019ab10231a5d693db09a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 02/24] fix: occurrence ranges only match occurrences of the
 same width

The bounds of a range have the same number of digits and were compared
bytewise, so /01-99 matched the occurrence /100 and /01-05 matched /011.
---
 src/matcher/occurrence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matcher/occurrence.rs b/src/matcher/occurrence.rs
index 78af4fa..6e049fc 100644
--- a/src/matcher/occurrence.rs
+++ b/src/matcher/occurrence.rs
@@ -74,7 +74,8 @@ impl OccurrenceMatcher {
                 Self::None => occ == b"00",
                 Self::Exact(rhs) => occ == rhs,
                 Self::Range(min, max) => {
-                    (occ.as_bytes() >= min.as_bytes())
+                    (occ.as_bytes().len() == min.as_bytes().len())
+                        && (occ.as_bytes() >= min.as_bytes())
                         && (occ.as_bytes() <= max.as_bytes())
                 }
             },
-- 
2.43.0


From 4e41c991a076d60dc2a31a957c1a66d4d317641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/24] fix: accept an AND chain as first operand of an XOR
 inside an OR

The OR operand tried the AND chain before the XOR chain, so a valid
expression like 'a? && b? ^ c? || d?' was rejected (and matchers composed
with the operators printed expressions that could not be parsed again).
---
 src/matcher/field/parser.rs    | 2 +-
 src/matcher/subfield/parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..ab9e4ae 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -292,8 +292,8 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
     let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
         ws(alt((
-            parse_field_and_matcher,
             parse_field_xor_matcher,
+            parse_field_and_matcher,
             parse_field_group_matcher,
             parse_field_cardinality_matcher,
             parse_field_singleton_matcher,
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..ebd5740 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -355,8 +355,8 @@ fn parse_subfield_or_matcher(
 ) -> ModalResult<SubfieldMatcher> {
     let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
         ws(alt((
-            parse_subfield_and_matcher,
             parse_subfield_xor_matcher,
+            parse_subfield_and_matcher,
             parse_subfield_group_matcher,
             parse_subfield_singleton_matcher,
             parse_subfield_not_matcher,
-- 
2.43.0


From 4cf6038c272f3d008fbdb7a61bac0b932fd1135f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 04/24] fix: parsing an expression no longer depends on earlier
 rejected ones

---
 src/fmt/parser.rs              | 5 +++++
 src/matcher/field/parser.rs    | 5 +----
 src/matcher/subfield/parser.rs | 7 ++-----
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..201c002 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -16,6 +16,7 @@ use crate::matcher::tag::parse_tag_matcher;
 use crate::parser::{parse_string, parse_subfield_codes, ws};
 
 pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
+    group_level_reset();
     (
         parse_tag_matcher,
         parse_occurrence_matcher,
@@ -55,6 +56,10 @@ thread_local! {
     pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
 }
 
+fn group_level_reset() {
+    GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
+}
+
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     GROUP_LEVEL.with(|level| {
         *level.borrow_mut() += 1;
diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index ab9e4ae..801e3ce 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -365,6 +365,7 @@ fn parse_field_composite_matcher(
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
+    group_level_reset();
     ws(alt((
         parse_field_composite_matcher,
         parse_field_group_matcher,
@@ -372,10 +373,6 @@ pub(crate) fn parse_field_matcher(
         parse_field_singleton_matcher,
         parse_field_cardinality_matcher,
     )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
     .parse_next(i)
 }
 
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index ebd5740..af91c2a 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -318,7 +318,7 @@ fn parse_subfield_group_matcher(
             parse_subfield_not_matcher,
             parse_subfield_group_matcher,
         )),
-        ws(')').map(|_| group_level_dec),
+        ws(')').map(|_| group_level_dec()),
     )
     .map(|m| SubfieldMatcher::Group(Box::new(m)))
     .parse_next(i)
@@ -425,16 +425,13 @@ fn parse_subfield_composite_matcher(
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
+    group_level_reset();
     alt((
         parse_subfield_composite_matcher,
         parse_subfield_singleton_matcher,
         parse_subfield_group_matcher,
         parse_subfield_not_matcher,
     ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
     .parse_next(i)
 }
 
-- 
2.43.0


From 1cd5c5eb5b9efb637cb79dba7336085e95b248a4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 05/24] fix: allow whitespace after the quantifier of an
 existence matcher

---
 src/matcher/field/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 801e3ce..4e24415 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -191,7 +191,7 @@ fn parse_field_exists_matcher(
             FieldMatcher::Singleton(SingletonMatcher::Exists(matcher))
         }),
         (
-            opt(parse_quantifier).map(Option::unwrap_or_default),
+            opt(ws(parse_quantifier)).map(Option::unwrap_or_default),
             parse_tag_matcher,
             parse_occurrence_matcher,
             alt((
-- 
2.43.0


From 4ac3d668810fd135eecf185484fa98db1d90c4a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 06/24] fix: read all members of a gzip file

---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..634c449 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -105,7 +105,7 @@ impl ReaderBuilder {
             .extension()
             .and_then(OsStr::to_str)
         {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+            Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
             _ => {
                 if path.to_str() != Some("-") {
                     Box::new(File::open(path)?)
-- 
2.43.0


From 020e9d2b84bd5778208486a18d74c2233c4f6dbf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 07/24] fix: report the line number of a record with invalid
 UTF-8

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 634c449..07c645a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -258,7 +258,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From 817ff8f2ec9774b478c6d2038ea6d1e5b35942c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 08/24] fix: drop the raw data of a record that is borrowed
 mutably

---
 src/record.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/record.rs b/src/record.rs
index b9776d9..c5fb60a 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -222,6 +222,7 @@ impl<'a> Deref for ByteRecord<'a> {
 impl DerefMut for ByteRecord<'_> {
     #[inline]
     fn deref_mut(&mut self) -> &mut Self::Target {
+        self.raw_data = None;
         &mut self.record
     }
 }
-- 
2.43.0


From 87772267ac2cfaf962faa8c3138c4a4a953a17a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 09/24] fix: count skipped invalid records as positions of a
 slice

---
 crates/pica-cli/src/commands/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..a23bea4 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -116,9 +116,13 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
+                        if self.length > 0
+                            && range.contains(&i)
+                            && range.end < usize::MAX
+                        {
                             range.end += 1;
                         }
+                        i += 1;
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From 20df8583a6bdb381955efd2d886a5d47afce7c3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 10/24] fix: do not stop at rare values in a reversed frequency
 table

---
 crates/pica-cli/src/commands/frequency.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..6a5fd6f 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -200,8 +200,10 @@ impl Frequency {
             writer.write_record(header.split(',').map(str::trim))?;
         }
 
-        let mut ftable_sorted: Vec<(&Vec<BString>, &u64)> =
-            ftable.iter().collect();
+        let mut ftable_sorted: Vec<(&Vec<BString>, &u64)> = ftable
+            .iter()
+            .filter(|(_, freq)| **freq >= self.threshold)
+            .collect();
 
         if self.reverse {
             ftable_sorted.sort_by(|a, b| match a.1.cmp(b.1) {
@@ -221,10 +223,6 @@ impl Frequency {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From 43f4e065245070cfefc49f39fd4718b080195bec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 11/24] fix: print records with values that are not UTF-8

---
 crates/pica-cli/src/commands/print.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..fce578d 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -3,7 +3,6 @@ use std::fs::File;
 use std::io::{self, BufWriter, Write};
 use std::process::ExitCode;
 
-use bstr::ByteSlice;
 use clap::Parser;
 use pica_record::prelude::*;
 
@@ -89,7 +88,7 @@ impl Print {
                                 write!(writer, " ${code}")?;
 
                                 let value = translit(
-                                    subfield.value().to_str().unwrap(),
+                                    subfield.value().to_string(),
                                 );
                                 write!(writer, " {value}")?;
                             }
-- 
2.43.0


From 7db254e16ed82c0ac6c88ba4777f1f8f8d7fb431 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 12/24] fix: convert records with values that are not UTF-8 to
 XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..2acf10e 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -73,10 +73,9 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(BytesText::new(
-                                        subfield
+                                        &subfield
                                             .value()
-                                            .to_str()
-                                            .unwrap(),
+                                            .to_str_lossy(),
                                     ))
                                     .unwrap();
                             }
-- 
2.43.0


From d483875901c498f3e3f9860c2143334345c27644 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 13/24] fix: separate records in the plain format

---
 crates/pica-cli/src/commands/convert/plain.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/convert/plain.rs b/crates/pica-cli/src/commands/convert/plain.rs
index 7ea5262..2c1c5e3 100644
--- a/crates/pica-cli/src/commands/convert/plain.rs
+++ b/crates/pica-cli/src/commands/convert/plain.rs
@@ -7,6 +7,7 @@ use pica_record::prelude::*;
 
 pub(crate) struct PlainWriter {
     writer: BufWriter<Box<dyn Write>>,
+    count: usize,
 }
 
 impl PlainWriter {
@@ -18,7 +19,7 @@ impl PlainWriter {
                 BufWriter::new(Box::new(stdout()))
             };
 
-        Ok(Self { writer })
+        Ok(Self { writer, count: 0 })
     }
 }
 
@@ -27,6 +28,12 @@ impl ByteRecordWrite for PlainWriter {
         &mut self,
         record: &ByteRecord,
     ) -> std::io::Result<()> {
+        if self.count > 0 {
+            self.writer.write_all(b"\n")?;
+        }
+
+        self.count += 1;
+
         for field in record.fields() {
             field.tag().write_to(&mut self.writer)?;
             if let Some(occurrence) = field.occurrence() {
-- 
2.43.0


From a087a0e510da0b12fb4bcd8ec6495929558a8a28 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 14/24] fix: do not panic on records without IDN in concat
 --unique

---
 crates/pica-cli/src/commands/concat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..122d1c7 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -76,7 +76,7 @@ pub(crate) enum Strategy {
 #[inline]
 fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
+        Strategy::Idn => record.ppn().unwrap_or_default().to_string(),
         Strategy::Hash => {
             record.sha256().iter().fold(String::new(), |mut out, b| {
                 let _ = write!(out, "{b:02x}");
-- 
2.43.0


From d6348b0f63bdc77414b3575b7d239ce2b3955ac2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 15/24] fix: partition writes a record to all of its files
 before the limit applies

---
 crates/pica-cli/src/commands/partition.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..f0e27f8 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -134,12 +134,13 @@ impl Partition {
                             };
 
                             writer.write_byte_record(record)?;
-                            count += 1;
-                            if self.filter_opts.limit > 0
-                                && count >= self.filter_opts.limit
-                            {
-                                break 'outer;
-                            }
+                        }
+
+                        count += 1;
+                        if self.filter_opts.limit > 0
+                            && count >= self.filter_opts.limit
+                        {
+                            break 'outer;
                         }
                     }
                 }
-- 
2.43.0


From 539309bee180efc98bf928cf909ff8fec8e422cf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 16/24] fix: respect the limit option in the count command

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 52a21a2867a9e6e91ef82b17c5c446c2b94d9455 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 17/24] fix: report empty values that are not listed

---
 crates/pica-cli/src/commands/check/checks/allow.rs  |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/iso639.rs |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/jelc.rs   |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/link.rs   | 10 +++++-----
 4 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..34bd8e8 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f87e3ee 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f8506c6 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..bb1d58a 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -87,15 +87,15 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let messages = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !messages.is_empty() {
+                result
+                    .push((ppn.to_owned(), Some(messages.join(", "))));
             }
         }
 
-- 
2.43.0


From 0ca842339869333935d0a89de82b472cfe54a3cf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 18/24] fix: only accept digits as the first 15 characters of
 an ISNI

---
 crates/pica-cli/src/commands/check/checks/isni.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..24bbf11 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -42,7 +42,9 @@ impl Isni {
                 })
                 .collect();
 
-            if digits.len() != 16 {
+            if digits.len() != 16
+                || digits[0..15].iter().any(|d| *d > 9)
+            {
                 messages.push(value.to_string());
                 retval = true;
                 continue;
-- 
2.43.0


From c67820cd94e6c6e1a90ff82af462a53ce90ef62d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 19/24] fix: read all members of a gzip file in the invalid
 command

---
 crates/pica-cli/src/commands/invalid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
-- 
2.43.0


From 300b8521527ab8ab418c6e73bcbeb509792c40e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 20/24] fix: records without a value do not count for the limit
 of partition

---
 crates/pica-cli/src/commands/partition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index f0e27f8..e7892cd 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -110,6 +110,10 @@ impl Partition {
                         values.sort_unstable();
                         values.dedup();
 
+                        if values.is_empty() {
+                            continue;
+                        }
+
                         for value in values {
                             let mut entry =
                                 writers.entry(value.to_vec());
-- 
2.43.0


From 63ff8099d51fdf8550d3f087bae7c74bd6c78440 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 21/24] fix: read standard input named after the first file in
 filter with an expression file

---
 crates/pica-cli/src/commands/filter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index 531177e..e34c986 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -153,7 +153,6 @@ pub(crate) struct Filter {
     ///
     /// If no filenames where given or a filename is "-", data is read
     /// from standard input (stdin).
-    #[arg(default_value = "-", hide_default_value = true)]
     filenames: Vec<OsString>,
 }
 
@@ -194,11 +193,7 @@ impl Filter {
             // a expression file is given, it makes no sense to provide
             // an filter expression as CLI argument.
             if !self.filter.is_empty() {
-                if filenames != ["-"] {
-                    filenames.insert(0, self.filter.into());
-                } else {
-                    filenames = vec![self.filter.into()];
-                }
+                filenames.insert(0, self.filter.into());
             }
 
             read_to_string(filename)?
@@ -206,6 +201,10 @@ impl Filter {
             self.filter
         };
 
+        if filenames.is_empty() {
+            filenames.push("-".into());
+        }
+
         let matcher =
             RecordMatcherBuilder::with_transform(filter_str, translit)?
                 .and(self.and)?
-- 
2.43.0


From dde9d4f205d0002b6d5464c453a6a8d7a0b20297 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:54:58 +0000
Subject: [PATCH 22/24] fix: slice no longer overflows if start plus length
 exceeds the maximum

---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a23bea4..bff1690 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -100,7 +100,7 @@ impl Slice {
         let mut range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
-- 
2.43.0


From bca42926808504d5c3910448a6066b7353942dab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 23/24] fix: split keeps the chunk size beyond 2^32 records

---
 crates/pica-cli/src/commands/split.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/split.rs b/crates/pica-cli/src/commands/split.rs
index 02489f2..e9770f2 100644
--- a/crates/pica-cli/src/commands/split.rs
+++ b/crates/pica-cli/src/commands/split.rs
@@ -52,8 +52,8 @@ impl Split {
         let skip_invalid =
             self.filter_opts.skip_invalid || config.skip_invalid;
         let mut progress = Progress::new(self.progress);
-        let mut chunks: u32 = 0;
-        let mut count = 0;
+        let mut chunks: usize = 0;
+        let mut count: usize = 0;
 
         let filter_set = FilterSet::try_from(&self.filter_opts)?;
         let options = MatcherOptions::from(&self.filter_opts);
@@ -103,8 +103,9 @@ impl Split {
                         }
 
                         if count > 0
-                            && (count as u32)
-                                .is_multiple_of(self.chunk_size)
+                            && count.is_multiple_of(
+                                self.chunk_size as usize,
+                            )
                         {
                             writer.finish()?;
                             chunks += 1;
-- 
2.43.0


From 6690dfc481f13cb96186dfb6200746074c715d12 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:15:09 +0000
Subject: [PATCH 24/24] fix: limit the nesting of negations in matcher
 expressions

---
 src/matcher/field/parser.rs    | 7 +++++--
 src/matcher/subfield/parser.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 4e24415..3325e37 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -275,7 +275,7 @@ fn parse_field_group_matcher(
 #[inline]
 fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
     preceded(
-        ws('!'),
+        terminated(ws('!'), group_level_inc),
         alt((
             parse_field_group_matcher,
             parse_subfields_matcher_bracket
@@ -285,7 +285,10 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
             parse_field_not_matcher,
         )),
     )
-    .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
+    .map(|matcher| {
+        group_level_dec();
+        FieldMatcher::Not(Box::new(matcher))
+    })
     .parse_next(i)
 }
 
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index af91c2a..65dbc91 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -339,14 +339,17 @@ fn parse_subfield_not_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
     preceded(
-        ws('!'),
+        terminated(ws('!'), group_level_inc),
         alt((
             parse_subfield_group_matcher,
             parse_subfield_exists_matcher,
             parse_subfield_not_matcher,
         )),
     )
-    .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
+    .map(|matcher| {
+        group_level_dec();
+        SubfieldMatcher::Not(Box::new(matcher))
+    })
     .parse_next(i)
 }
 
-- 
2.43.0

