From 6c819c6bd91c03c3668fc50e30c4e1da35339358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 01/32] fix: terminate parsing of unterminated quoted strings
 and allow NUL inside quotes

---
 src/yaml/parsing.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..998a2c2 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -327,6 +327,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -353,6 +356,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
@@ -377,7 +383,8 @@ impl<'a> Parser<'a> {
 
         loop {
             match self.peek1() {
-                b'"' | EOF => break,
+                b'"' => break,
+                _ if self.is_eof() => break,
                 b'\\' => {
                     return self.double_quoted_escaped(start, original);
                 }
@@ -404,7 +411,8 @@ impl<'a> Parser<'a> {
 
         loop {
             match self.peek1() {
-                b'"' | EOF => break,
+                b'"' => break,
+                _ if self.is_eof() => break,
                 b'\\' => {
                     let start = self.n;
                     self.bump(1);
-- 
2.43.0


From 6b4df680945f4e7ef3ed54ea408cb393a058ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 02/32] fix: write sequence item prefixes verbatim in write_to
 instead of lossily

---
 src/yaml/raw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..4116d02 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -801,7 +801,7 @@ impl Sequence {
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(data.prefix(*item))?;
 
             if let SequenceKind::Mapping = self.kind {
                 write!(o, "-")?;
-- 
2.43.0


From c9435b20e6453f6ee0310dc7852de28bc1733b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 03/32] fix: nth_back of sequence and mapping iterators counts
 from the back

---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From e4ad5da58e30c073a7b22794f1d07ca51802c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 04/32] fix: write_to omits the prefix of empty values just
 like Display does

---
 src/yaml/raw.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 4116d02..504159b 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -308,6 +308,20 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if the raw value doesn't render to anything.
+    fn is_empty(&self) -> bool {
+        match self {
+            Raw::Null(Null::Empty) => true,
+            Raw::Mapping(raw) => {
+                matches!(raw.kind, MappingKind::Mapping) && raw.items.is_empty()
+            }
+            Raw::Sequence(raw) => {
+                matches!(raw.kind, SequenceKind::Mapping) && raw.items.is_empty()
+            }
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -846,8 +860,14 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        // NB: values which do not render anything do not have a prefix.
+        if !raw.is_empty() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
         Ok(())
     }
 }
@@ -989,8 +1009,14 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        // NB: values which do not render anything do not have a prefix.
+        if !raw.is_empty() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
         Ok(())
     }
 }
-- 
2.43.0


From a2b962a7478e98623851ffa524bcd88fd81ee4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 05/32] fix: preserve directives and document start markers
 when writing a document

---
 src/yaml/parsing.rs | 14 ++++++++------
 src/yaml/raw.rs     | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 998a2c2..252ab81 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -127,19 +127,20 @@ impl<'a> Parser<'a> {
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
     fn start_of_document(&mut self) -> StringId {
-        let mut prefix = self.ws();
+        let start = self.n;
+        self.ws();
 
         loop {
             match self.peek() {
                 // Process headers.
-                [b'%', _, _] => {
+                [b'%', _, _, _] => {
                     self.find(raw::NEWLINE);
-                    prefix = self.ws();
+                    self.ws();
                 }
                 // Process start-of-document.
-                [b'-', b'-', b'-'] => {
+                [b'-', b'-', b'-', ws!(EOF)] => {
                     self.bump(3);
-                    prefix = self.ws();
+                    self.ws();
                     break;
                 }
                 _ => {
@@ -148,7 +149,8 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        // NB: the header is part of the prefix, so that it is preserved.
+        self.data.insert_str(self.string(start))
     }
 
     /// Test if eof.
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 504159b..c152c0c 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -65,6 +65,15 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         ),
         _ => {
             let prefix = data.layout(id).prefix;
+
+            // NB: containers cannot be on the same line as a document header.
+            if !self::indent(data.str(prefix)).trim().is_empty() {
+                let mut out = data.str(prefix).to_vec();
+                out.push(NEWLINE);
+                out.extend(iter::repeat(SPACE).take(extra));
+                return (extra, data.insert_str(&out));
+            }
+
             let indent = self::count_indent(data.str(prefix)).saturating_add(extra);
 
             if extra == 0 {
@@ -145,7 +154,11 @@ where
 
             let n = prefix.rfind([NEWLINE]).map_or(0, |i| i.wrapping_add(1));
 
-            (2, &prefix[n..])
+            // NB: do not repeat a document header on the same line.
+            let prefix = &prefix[n..];
+            let n = prefix.find_not_byteset(b" \t").unwrap_or(prefix.len());
+
+            (2, BStr::new(&prefix[..n]))
         }
     };
 
-- 
2.43.0


From 334199bdb235fe07a9cdd7b4bf7a45f8b633c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 06/32] fix: preserve whitespace before separators in inline
 collections and require separators

---
 src/yaml/mapping/mapping_mut.rs   |  8 +++-
 src/yaml/parsing.rs               | 75 ++++++++++++++++++-------------
 src/yaml/raw.rs                   | 16 ++++---
 src/yaml/sequence/sequence_mut.rs |  8 +++-
 4 files changed, 66 insertions(+), 41 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..a6f55f4 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -198,8 +198,12 @@ impl<'a> MappingMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::MappingItem(raw::MappingItem { key, value }));
+        let suffix = self.data.insert_str("");
+
+        self.data.replace(
+            item_id,
+            Raw::MappingItem(raw::MappingItem { key, value, suffix }),
+        );
 
         self.data.mapping_mut(self.id).items.push(item_id);
         value
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 252ab81..6fe2d54 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1,4 +1,5 @@
 use std::array;
+use std::mem;
 
 use bstr::ByteSlice;
 
@@ -502,40 +503,39 @@ impl<'a> Parser<'a> {
 
     /// Parse an inline sequence.
     fn inline_sequence(&mut self, s: &State) -> Result<Id> {
+        let empty = self.data.insert_str("");
         let id = self.placeholder(s.prefix, s.parent);
 
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b']' | EOF) {
-            trailing = false;
-
             let item_id = self.placeholder(item_prefix, Some(id));
             let value_prefix = self.ws();
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            let mut suffix = next_prefix.unwrap_or_else(|| self.ws());
 
-            items.push(item_id);
+            trailing = matches!(self.peek1(), b',');
 
-            if last {
-                item_prefix = next_prefix.unwrap_or_else(|| self.ws());
-                break;
-            }
-
-            if matches!(self.peek1(), b',') {
+            if trailing {
                 self.bump(1);
-                trailing = true;
+                item_prefix = self.ws();
             } else {
-                last = true;
+                item_prefix = mem::replace(&mut suffix, empty);
             }
 
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
+            items.push(item_id);
+
+            if !trailing {
+                break;
+            }
         }
 
         if !matches!(self.peek1(), b']') {
@@ -564,18 +564,16 @@ impl<'a> Parser<'a> {
 
     /// Parse an inline mapping.
     fn inline_mapping(&mut self, s: &State) -> Result<Id> {
+        let empty = self.data.insert_str("");
         let id = self.placeholder(s.prefix, s.parent);
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b'}' | EOF) {
-            trailing = false;
-
             let Some(key) = self.until_colon(self.n) else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
@@ -586,24 +584,26 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
-            items.push(item_id);
+            let mut suffix = next_prefix.unwrap_or_else(|| self.ws());
 
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            trailing = matches!(self.peek1(), b',');
 
-            if last {
-                break;
-            }
+            self.bump(usize::from(trailing));
+            start = self.n;
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
+            if trailing {
+                item_prefix = self.ws();
             } else {
-                last = true;
+                item_prefix = mem::replace(&mut suffix, empty);
             }
 
-            start = self.n;
-            item_prefix = self.ws();
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
+            items.push(item_id);
+
+            if !trailing {
+                break;
+            }
         }
 
         if !matches!(self.peek1(), b'}') {
@@ -646,7 +646,13 @@ impl<'a> Parser<'a> {
             let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            self.data.replace(
+                item_id,
+                raw::SequenceItem {
+                    value,
+                    suffix: empty,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -715,7 +721,14 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            self.data.replace(
+                item_id,
+                raw::MappingItem {
+                    key,
+                    value,
+                    suffix: empty,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index c152c0c..766c485 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -325,12 +325,8 @@ impl Raw {
     fn is_empty(&self) -> bool {
         match self {
             Raw::Null(Null::Empty) => true,
-            Raw::Mapping(raw) => {
-                matches!(raw.kind, MappingKind::Mapping) && raw.items.is_empty()
-            }
-            Raw::Sequence(raw) => {
-                matches!(raw.kind, SequenceKind::Mapping) && raw.items.is_empty()
-            }
+            Raw::Mapping(raw) => matches!(raw.kind, MappingKind::Mapping) && raw.items.is_empty(),
+            Raw::Sequence(raw) => matches!(raw.kind, SequenceKind::Mapping) && raw.items.is_empty(),
             _ => false,
         }
     }
@@ -861,11 +857,14 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
+    /// Whitespace between the value and the following `,` in an inline sequence.
+    pub(crate) suffix: StringId,
 }
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -881,6 +880,7 @@ impl SequenceItem {
         }
 
         raw.write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
@@ -1006,6 +1006,8 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
+    /// Whitespace between the value and the following `,` in an inline mapping.
+    pub(crate) suffix: StringId,
 }
 
 impl MappingItem {
@@ -1013,6 +1015,7 @@ impl MappingItem {
         self.key.display(data, f)?;
         write!(f, ":")?;
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -1030,6 +1033,7 @@ impl MappingItem {
         }
 
         raw.write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..b03a2b5 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -127,8 +127,12 @@ impl<'a> SequenceMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::SequenceItem(raw::SequenceItem { value }));
+        let suffix = self.data.insert_str("");
+
+        self.data.replace(
+            item_id,
+            Raw::SequenceItem(raw::SequenceItem { value, suffix }),
+        );
         self.data.sequence_mut(self.id).items.push(item_id);
         value
     }
-- 
2.43.0


From ee314502e24b910f1c4e54b22094ac497554b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 07/32] fix: honour indentation, blank lines and chomping in
 block scalars

---
 src/yaml/parsing.rs | 120 ++++++++++++++++++++++++++++++--------------
 1 file changed, 81 insertions(+), 39 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 6fe2d54..f84c65c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1,4 +1,5 @@
 use std::array;
+use std::iter;
 use std::mem;
 
 use bstr::ByteSlice;
@@ -7,7 +8,7 @@ use crate::yaml::data::{Data, Id, StringId};
 use crate::yaml::error::{Error, ErrorKind};
 use crate::yaml::raw::{self, Raw};
 use crate::yaml::serde_hint;
-use crate::yaml::Document;
+use crate::yaml::{Chomp, Document};
 
 type Result<T, E = Error> = std::result::Result<T, E>;
 
@@ -33,6 +34,11 @@ macro_rules! ws {
     };
 }
 
+/// Trim ascii whitespace.
+fn trim(string: &[u8]) -> &[u8] {
+    string.trim_with(|c| matches!(u8::try_from(c), Ok(ws!())))
+}
+
 struct State {
     prefix: StringId,
     parent: Option<Id>,
@@ -805,60 +811,94 @@ impl<'a> Parser<'a> {
     /// Process a block as a string.
     fn block(
         &mut self,
+        s: &State,
         n: usize,
-        join: u8,
         folded: bool,
-        chomp: bool,
-        clip: bool,
+        chomp: Chomp,
     ) -> (Raw, Option<StringId>) {
         let start = self.n;
         self.bump(n);
         let prefix = self.data.insert_str(self.string(start));
 
         let start = self.n;
-        let (mut ws, mut nl) = self.ws_nl();
-
-        if nl == 0 {
-            self.find(raw::NEWLINE);
-            let out = self.input.get(start..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+        let mut end = start;
+        let mut any = false;
 
-            (ws, nl) = self.ws_nl();
+        // Process the rest of the header.
+        self.find(raw::NEWLINE);
+        let header = trim(self.string(start));
+        let mut inline = !header.is_empty() && !header.starts_with(b"#");
 
-            if !self.is_eof() {
-                self.scratch.push(join);
-            }
+        if inline {
+            self.scratch.extend_from_slice(header);
+            end = self.n;
+            any = true;
         }
 
-        let mut end = self.n;
-        let indent = self.indent();
+        // Lines in the block have to be indented more than the parent.
+        let min = s.parent_indent.map_or(0, |n| n.saturating_add(1));
+        let mut indent = None;
+        // The number of newlines seen since the last line with content.
+        let mut nl = 0usize;
 
         while !self.is_eof() {
-            let s = self.n;
+            self.bump(1);
+            nl = nl.saturating_add(1);
+
+            let line = self.n;
             self.find(raw::NEWLINE);
-            let out = self.input.get(s..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+            let line = self.string(line);
+            let spaces = line.iter().take_while(|b| **b == raw::SPACE).count();
 
-            end = self.n;
-            (ws, nl) = self.ws_nl();
+            let content = match indent {
+                _ if trim(line).is_empty() && (folded || spaces <= indent.unwrap_or(spaces)) => {
+                    continue;
+                }
+                None if spaces >= min => {
+                    indent = Some(spaces);
+                    line.get(spaces..)
+                }
+                Some(indent) if spaces >= indent => line.get(indent..),
+                _ => {
+                    break;
+                }
+            };
 
-            if self.indent() < indent {
-                break;
-            }
+            let content = content.unwrap_or_default();
 
-            for _ in 0..if folded { 1 } else { nl } {
-                self.scratch.push(join);
-            }
-        }
+            if folded {
+                self.scratch.extend(any.then_some(raw::SPACE));
+                self.scratch.extend_from_slice(trim(content));
+            } else {
+                let nl = match (any, inline) {
+                    (true, true) => 1,
+                    (true, false) => nl,
+                    (false, _) => nl.saturating_sub(1),
+                };
 
-        for _ in 0..if chomp { nl } else { Default::default() } {
-            self.scratch.push(raw::NEWLINE);
+                inline = false;
 
-            if clip {
-                break;
+                self.scratch.extend(iter::repeat(raw::NEWLINE).take(nl));
+                self.scratch
+                    .extend_from_slice(content.strip_suffix(b"\r").unwrap_or(content));
             }
+
+            end = self.n;
+            any = true;
+            nl = 0;
         }
 
+        self.n = end;
+        let ws = self.ws();
+
+        let nl = match chomp {
+            Chomp::Strip => 0,
+            Chomp::Clip => nl.min(usize::from(any)),
+            Chomp::Keep => nl.saturating_sub(usize::from(!any)),
+        };
+
+        self.scratch.extend(iter::repeat(raw::NEWLINE).take(nl));
+
         let string = self.data.insert_str(&self.scratch);
         self.scratch.clear();
 
@@ -900,13 +940,15 @@ impl<'a> Parser<'a> {
             }
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
             [b'{', _] => return Ok((self.inline_mapping(s)?, None)),
-            [a @ (b'>' | b'|'), b] => self.block(
-                matches!(b, b'-' | b'+').then_some(2).unwrap_or(1),
-                if a == b'>' { raw::SPACE } else { raw::NEWLINE },
-                a == b'>',
-                b != b'-',
-                b == b'-',
-            ),
+            [a @ (b'>' | b'|'), b] => {
+                let (n, chomp) = match b {
+                    b'-' => (2, Chomp::Strip),
+                    b'+' => (2, Chomp::Keep),
+                    _ => (1, Chomp::Clip),
+                };
+
+                self.block(s, n, a == b'>', chomp)
+            }
             _ => {
                 'default: {
                     let start = self.n;
-- 
2.43.0


From 0ad1e72c1df9b70491778eacee1baf8c1806041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 08/32] fix: parse numbers with negative exponents, trailing
 comments, and reject malformed ones

---
 src/yaml/parsing.rs | 72 ++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index f84c65c..a803f2c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -246,18 +246,26 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
-    /// Test if current position contains nothing but whitespace until we reach a line end.
-    fn is_eol(&self) -> bool {
+    /// Test if a scalar ends at the current position, which is the case if it's
+    /// followed by nothing but whitespace and comments until we reach a line
+    /// end, or a control character if it's inline.
+    fn is_end_of_scalar(&self, s: &State) -> bool {
         let mut n = self.n;
 
         while let Some(&b) = self.input.get(n) {
             match b {
-                raw::NEWLINE => {
+                raw::NEWLINE if s.tabular => {
                     return true;
                 }
-                other_ws!() => {
+                ws!() => {
                     n = n.wrapping_add(1);
                 }
+                b'#' => {
+                    return n != self.n;
+                }
+                b',' | b']' | b'}' => {
+                    return s.inline;
+                }
                 _ => {
                     return false;
                 }
@@ -267,6 +275,17 @@ impl<'a> Parser<'a> {
         true
     }
 
+    /// Consume digits, and return `true` if there were any.
+    fn digits(&mut self) -> bool {
+        let start = self.n;
+
+        while self.peek1().is_ascii_digit() {
+            self.bump(1);
+        }
+
+        self.n != start
+    }
+
     /// Consume a single number.
     fn number(&mut self, s: &State, start: usize) -> Option<Raw> {
         let mut hint = serde_hint::U64;
@@ -276,39 +295,32 @@ impl<'a> Parser<'a> {
             self.bump(1);
         }
 
-        let mut wants_dot = true;
-        let mut wants_e = true;
-        let mut has_number = false;
-        let mut any = false;
-
-        loop {
-            match self.peek1() {
-                b'.' if wants_dot => {
-                    hint = serde_hint::F64;
-                    wants_dot = false;
-                }
-                b'e' | b'E' if has_number && wants_e => {
-                    hint = serde_hint::F64;
-                    wants_dot = false;
-                    wants_e = false;
-                }
-                b'0'..=b'9' => {
-                    has_number = true;
-                }
-                _ => {
-                    break;
-                }
-            }
+        let mut digits = self.digits();
 
-            any = true;
+        if self.peek1() == b'.' {
+            hint = serde_hint::F64;
             self.bump(1);
+            digits |= self.digits();
         }
 
-        if !any {
+        if !digits {
             return None;
         }
 
-        if s.tabular && !self.is_eol() {
+        if matches!(self.peek1(), b'e' | b'E') {
+            hint = serde_hint::F64;
+            self.bump(1);
+
+            if matches!(self.peek1(), b'-' | b'+') {
+                self.bump(1);
+            }
+
+            if !self.digits() {
+                return None;
+            }
+        }
+
+        if !self.is_end_of_scalar(s) {
             return None;
         }
 
-- 
2.43.0


From 0ccefc5a7b83525a942d3d226da8f096a281df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 09/32] fix: do not treat comments and trailing whitespace as
 part of bare scalars

---
 src/yaml/parsing.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index a803f2c..1b0d035 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -210,10 +210,10 @@ impl<'a> Parser<'a> {
     }
 
     /// Find the given character.
-    fn find2(&mut self, a: u8, b: u8) {
+    fn find3(&mut self, a: u8, b: u8, c: u8) {
         let input = self.input.get(self.n..).unwrap_or_default();
 
-        if let Some(n) = memchr::memchr2(a, b, input) {
+        if let Some(n) = memchr::memchr3(a, b, c, input) {
             self.bump(n);
         } else {
             self.n = self.input.len();
@@ -784,13 +784,13 @@ impl<'a> Parser<'a> {
         raw::count_indent(string)
     }
 
-    /// Process a key up until `:` or end of the current line.
+    /// Process a key up until `:`, a comment, or end of the current line.
     fn key_or_eol(&mut self, start: usize) -> Option<raw::String> {
         loop {
-            self.find2(b':', raw::NEWLINE);
+            self.find3(b':', b'#', raw::NEWLINE);
 
             match self.peek() {
-                [raw::NEWLINE | EOF, _] => {
+                [b'#', _] if self.is_comment(start) => {
                     return None;
                 }
                 // Only treat something as a key if it's a colon immediately
@@ -799,6 +799,12 @@ impl<'a> Parser<'a> {
                     let key = self.data.insert_str(self.string(start));
                     return Some(raw::String::new(raw::RawStringKind::Bare, key, key));
                 }
+                [raw::NEWLINE, _] => {
+                    return None;
+                }
+                _ if self.is_eof() => {
+                    return None;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -806,6 +812,20 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Test if the `#` at the current position starts a comment in a scalar
+    /// starting at `start`, which it does if it's preceeded by whitespace.
+    fn is_comment(&self, start: usize) -> bool {
+        matches!(self.string(start).last().copied(), Some(ws!()))
+    }
+
+    /// Rewind over whitespace, which is not part of the scalar starting at
+    /// `start`.
+    fn rewind_ws(&mut self, start: usize) {
+        while matches!(self.string(start).last().copied(), Some(ws!())) {
+            self.n = self.n.wrapping_sub(1);
+        }
+    }
+
     /// Process a key up until `:`.
     fn until_colon(&mut self, start: usize) -> Option<raw::String> {
         while !matches!(self.peek1(), b':' | EOF) {
@@ -973,6 +993,10 @@ impl<'a> Parser<'a> {
                         // Seek until we find a control character, since we're
                         // simply treating the current segment as a string.
                         while !matches!(self.peek1(), ctl!()) {
+                            if self.peek1() == b'#' && self.is_comment(start) {
+                                break;
+                            }
+
                             self.bump(1);
                         }
                     } else if let Some(key) = self.key_or_eol(start) {
@@ -980,8 +1004,9 @@ impl<'a> Parser<'a> {
                     }
 
                     // NB: calling `key_or_eol` will have consumed up until end
-                    // of line for us, so use the current span as the production
-                    // string.
+                    // of line for us, so use the current span without any
+                    // trailing whitespace as the production string.
+                    self.rewind_ws(start);
                     let string = self.string(start);
                     (
                         if string == b"~" {
-- 
2.43.0


From 0d9348e056454920604a97707fc425f436a1a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 10/32] fix: parse missing values as null and do not nest
 siblings of empty sequence items

---
 src/yaml/parsing.rs | 73 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 1b0d035..0911a90 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -45,6 +45,7 @@ struct State {
     inline: bool,
     tabular: bool,
     parent_indent: Option<usize>,
+    sequence: bool,
 }
 
 impl State {
@@ -56,6 +57,7 @@ impl State {
             inline: false,
             tabular: false,
             parent_indent: None,
+            sequence: false,
         }
     }
 
@@ -83,6 +85,14 @@ impl State {
         }
     }
 
+    #[inline]
+    fn with_sequence(self) -> Self {
+        Self {
+            sequence: true,
+            ..self
+        }
+    }
+
     #[inline]
     fn with_parent_indent(self, indent: usize) -> Self {
         Self {
@@ -334,6 +344,35 @@ impl<'a> Parser<'a> {
             .insert(Raw::Null(raw::Null::Empty), prefix, parent)
     }
 
+    /// Test if there is no value at the current position.
+    fn is_empty(&self, s: &State) -> bool {
+        match self.peek() {
+            _ if self.is_eof() => true,
+            [b',' | b']' | b'}', _] => s.inline,
+            // A sequence might be on the same indentation as a parent mapping,
+            // but has to be indented inside of another sequence.
+            [b'-', ws!(EOF)] => matches!(
+                s.parent_indent,
+                Some(i) if self.indent() < i.saturating_add(usize::from(s.sequence))
+            ),
+            _ => false,
+        }
+    }
+
+    /// Insert an empty null value.
+    ///
+    /// Since an empty value does not have a prefix, the whitespace preceeding
+    /// it is returned so that it becomes part of whatever comes after it. The
+    /// prefix stored is the one to use in case the value is edited.
+    fn empty(&mut self, s: &State) -> (Id, Option<StringId>) {
+        if s.parent.is_none() {
+            return (self.placeholder(s.prefix, s.parent), None);
+        }
+
+        let prefix = self.data.insert_str(" ");
+        (self.placeholder(prefix, s.parent), Some(s.prefix))
+    }
+
     /// Read a double-quoted string.
     fn single_quoted(&mut self) -> raw::String {
         let original = self.n;
@@ -661,8 +700,13 @@ impl<'a> Parser<'a> {
             self.bump(1);
 
             let value_prefix = self.ws();
-            let (value, ws) =
-                self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
+            let (value, ws) = self.value(
+                &State::new(value_prefix)
+                    .with_parent(item_id)
+                    .with_tabular()
+                    .with_parent_indent(indent)
+                    .with_sequence(),
+            )?;
 
             self.data.replace(
                 item_id,
@@ -676,7 +720,7 @@ impl<'a> Parser<'a> {
             let ws = ws.unwrap_or_else(|| self.ws());
             previous_ws = Some(ws);
 
-            if self.indent() != indent || !matches!(self.peek1(), b'-') {
+            if self.indent() != indent || !matches!(self.peek(), [b'-', ws!(EOF)]) {
                 break;
             }
         }
@@ -702,24 +746,22 @@ impl<'a> Parser<'a> {
         mut start: usize,
         key: raw::String,
     ) -> Result<(Id, Option<StringId>)> {
-        let empty = self.data.insert_str("");
-        let mapping_id = self.placeholder(s.prefix, s.parent);
-
-        let mut items = Vec::new();
-        let mut previous_ws = None;
-        let mut current_key = Some(key);
-
         let indent = self.indent_from(start);
 
         // Finding a mapping on a smaller indentation level than the parent
         // indentation means that we've encountered a nul value and need to rewind parsing.
         if matches!(s.parent_indent, Some(i) if i >= indent) {
             self.n = start;
-            self.data
-                .replace_with(mapping_id, empty, Raw::Null(raw::Null::Empty));
-            return Ok((mapping_id, Some(s.prefix)));
+            return Ok(self.empty(s));
         }
 
+        let empty = self.data.insert_str("");
+        let mapping_id = self.placeholder(s.prefix, s.parent);
+
+        let mut items = Vec::new();
+        let mut previous_ws = None;
+        let mut current_key = Some(key);
+
         while let Some(key) = current_key.take() {
             if !matches!(self.peek1(), b':') {
                 self.bump(1);
@@ -947,7 +989,10 @@ impl<'a> Parser<'a> {
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
-            [b'-', ws!()] if !s.inline => {
+            _ if self.is_empty(s) => {
+                return Ok(self.empty(s));
+            }
+            [b'-', ws!(EOF)] if !s.inline => {
                 return self.sequence(s);
             }
             [b'"', _] => {
-- 
2.43.0


From 5f0ecf49c42ff455828d164602feed3f76cf7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 11/32] fix: decode every quoted mapping key and use the same
 key rules for all keys

---
 src/yaml/parsing.rs | 80 ++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 0911a90..8a18363 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -631,7 +631,7 @@ impl<'a> Parser<'a> {
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b'}' | EOF) {
-            let Some(key) = self.until_colon(self.n) else {
+            let Some(key) = self.until_colon(self.n)? else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -799,7 +799,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -838,8 +838,16 @@ impl<'a> Parser<'a> {
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
                 [b':', ws!(EOF)] => {
+                    let end = self.n;
+                    let original = self.data.insert_str(self.string(start));
+                    self.rewind_ws(start);
                     let key = self.data.insert_str(self.string(start));
-                    return Some(raw::String::new(raw::RawStringKind::Bare, key, key));
+                    self.n = end;
+                    return Some(raw::String::new(
+                        raw::RawStringKind::Original,
+                        key,
+                        original,
+                    ));
                 }
                 [raw::NEWLINE, _] => {
                     return None;
@@ -868,18 +876,36 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Process a key up until `:`.
-    fn until_colon(&mut self, start: usize) -> Option<raw::String> {
-        while !matches!(self.peek1(), b':' | EOF) {
-            self.bump(1);
-        }
+    /// Process an inline key up until `:`.
+    fn until_colon(&mut self, start: usize) -> Result<Option<raw::String>> {
+        let id = match self.peek1() {
+            b'"' => self.double_quoted()?.id,
+            b'\'' => self.single_quoted().id,
+            _ => {
+                while !matches!(self.peek1(), b':') && !self.is_eof() {
+                    self.bump(1);
+                }
 
-        if self.is_eof() {
-            return None;
+                let end = self.n;
+                self.rewind_ws(start);
+                let id = self.data.insert_str(self.string(start));
+                self.n = end;
+                id
+            }
+        };
+
+        self.ws();
+
+        if self.peek1() != b':' {
+            return Ok(None);
         }
 
-        let key = self.data.insert_str(self.string(start));
-        Some(raw::String::new(raw::RawStringKind::Bare, key, key))
+        let original = self.data.insert_str(self.string(start));
+        Ok(Some(raw::String::new(
+            raw::RawStringKind::Original,
+            id,
+            original,
+        )))
     }
 
     /// Process a block as a string.
@@ -1077,27 +1103,21 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
         let start = self.n;
 
-        let string = loop {
-            match self.peek1() {
-                b':' | EOF => {
-                    let string = self.string(start);
-
-                    if string.is_empty() {
-                        return None;
-                    }
-
-                    break string;
-                }
-                _ => {
-                    self.bump(1);
-                }
-            }
+        let key = match self.peek1() {
+            _ if self.is_eof() => return Ok(None),
+            b'"' => Some(self.double_quoted()?),
+            b'\'' => Some(self.single_quoted()),
+            _ => self.key_or_eol(start),
         };
 
-        let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        if key.is_none() {
+            self.find(raw::NEWLINE);
+            return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
+        }
+
+        Ok(key)
     }
 }
-- 
2.43.0


From 570e2cff9c2666951d99c17e2d7d1ee4b0e1ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 12/32] fix: allow colons inside of inline bare strings

---
 src/yaml/parsing.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 8a18363..5787492 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1063,9 +1063,14 @@ impl<'a> Parser<'a> {
                     if s.inline {
                         // Seek until we find a control character, since we're
                         // simply treating the current segment as a string.
-                        while !matches!(self.peek1(), ctl!()) {
-                            if self.peek1() == b'#' && self.is_comment(start) {
-                                break;
+                        loop {
+                            match self.peek() {
+                                [b'#', _] if self.is_comment(start) => break,
+                                // A colon is part of the string unless it's
+                                // followed by spacing or a control character.
+                                [b':', b] if b == b':' || !matches!(b, ws!() | ctl!()) => {}
+                                [ctl!(), _] => break,
+                                _ => {}
                             }
 
                             self.bump(1);
-- 
2.43.0


From 1843082d54ae441151049f8f228af36d382cc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 13/32] fix: escape backslashes and unprintable characters in
 double quoted strings and read more escapes

---
 src/yaml/parsing.rs | 18 ++++++++++++-
 src/yaml/raw.rs     | 61 +++++++++++++++++++++++++++++++++------------
 2 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 5787492..9adb55e 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -510,7 +510,12 @@ impl<'a> Parser<'a> {
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
-            b'\\' => b'\"',
+            b'\\' | b'"' => b'\"',
+            b @ (b' ' | b'/' | b'\t') => b,
+            b'N' => return self.unescape_char('\u{85}'),
+            b'_' => return self.unescape_char('\u{a0}'),
+            b'L' => return self.unescape_char('\u{2028}'),
+            b'P' => return self.unescape_char('\u{2029}'),
             b'x' => {
                 self.bump(1);
                 return self.unescape_unicode(start, 2, ErrorKind::BadHexEscape);
@@ -519,6 +524,10 @@ impl<'a> Parser<'a> {
                 self.bump(1);
                 return self.unescape_unicode(start, 4, ErrorKind::BadUnicodeEscape);
             }
+            b'U' => {
+                self.bump(1);
+                return self.unescape_unicode(start, 8, ErrorKind::BadUnicodeEscape);
+            }
             _ => {
                 self.bump(1);
                 return Err(Error::new(start..self.n, ErrorKind::BadEscape));
@@ -530,6 +539,13 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Unescape a single-byte escape into the given character.
+    fn unescape_char(&mut self, c: char) -> Result<()> {
+        self.scratch.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
+        self.bump(1);
+        Ok(())
+    }
+
     /// Unescape a unicode character into the scratch buffer.
     fn unescape_unicode(&mut self, start: usize, count: usize, err: ErrorKind) -> Result<()> {
         let mut c: u32 = 0;
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 766c485..6eec74d 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -32,6 +32,16 @@ pub(crate) fn count_indent(string: &[u8]) -> usize {
     indent(string).chars().count()
 }
 
+/// Test for non-ascii characters which may not be part of a YAML document.
+///
+/// See <https://yaml.org/spec/1.2.2/#51-character-set>.
+fn is_not_printable(c: char) -> bool {
+    matches!(
+        c,
+        '\u{80}'..='\u{9f}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}'
+    )
+}
+
 /// Construct a raw kind associated with booleans.
 pub(crate) fn new_bool(data: &mut Data, value: bool) -> Raw {
     let string = data.insert_str(if value { "true" } else { "false" });
@@ -589,6 +599,15 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
+                    '\\' => "\\x5c",
+                    '\u{85}' => "\\N",
+                    '\u{2028}' => "\\L",
+                    '\u{2029}' => "\\P",
+                    c if is_not_printable(c) => {
+                        write!(f, "{}\\u{:04x}", &string[start..index], u32::from(c))?;
+                        start = end;
+                        continue;
+                    }
                     c if c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
@@ -670,22 +689,32 @@ impl String {
             o.write_all(b"\"")?;
             let mut s = 0;
 
-            for (index, b) in string.bytes().enumerate() {
-                let esc = match b {
-                    b'\0' => b"\\0",
-                    0x07 => b"\\a",
-                    0x08 => b"\\b",
-                    0x09 => b"\\t",
-                    b'\n' => b"\\n",
-                    0x0b => b"\\v",
-                    0x0c => b"\\f",
-                    b'\r' => b"\\r",
-                    0x1b => b"\\e",
-                    b'\"' => b"\\\"",
+            for (index, end, c) in string.char_indices() {
+                let esc = match c {
+                    '\u{00}' => "\\0",
+                    '\u{07}' => "\\a",
+                    '\u{08}' => "\\b",
+                    '\u{09}' => "\\t",
+                    '\n' => "\\n",
+                    '\u{0b}' => "\\v",
+                    '\u{0c}' => "\\f",
+                    '\r' => "\\r",
+                    '\u{1b}' => "\\e",
+                    '\"' => "\\\"",
+                    '\\' => "\\x5c",
+                    '\u{85}' => "\\N",
+                    '\u{2028}' => "\\L",
+                    '\u{2029}' => "\\P",
+                    c if is_not_printable(c) => {
+                        o.write_all(&string[s..index])?;
+                        write!(o, "\\u{:04x}", u32::from(c))?;
+                        s = end;
+                        continue;
+                    }
                     c if c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
-                        write!(o, "\\x{c:02x}")?;
-                        s = index.saturating_add(1);
+                        write!(o, "\\x{:02x}", u32::from(c))?;
+                        s = end;
                         continue;
                     }
                     _ => {
@@ -694,8 +723,8 @@ impl String {
                 };
 
                 o.write_all(&string[s..index])?;
-                o.write_all(esc)?;
-                s = index.saturating_add(1);
+                o.write_all(esc.as_bytes())?;
+                s = end;
             }
 
             o.write_all(&string[s..])?;
-- 
2.43.0


From 5fcb010b8704796ef34517a172c448ba6ea87e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 14/32] fix: quote strings which cannot be represented or would
 not be read back as bare strings

---
 src/yaml/mapping/mapping_mut.rs   |   2 +-
 src/yaml/raw.rs                   | 103 ++++++++++++++++++++++--------
 src/yaml/sequence/sequence_mut.rs |   2 +-
 src/yaml/value_mut.rs             |   3 +-
 4 files changed, 82 insertions(+), 28 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index a6f55f4..6c36ed9 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -540,7 +540,7 @@ impl<'a> MappingMut<'a> {
         K: AsRef<[u8]>,
         S: AsRef<str>,
     {
-        let string = new_string(self.data, string);
+        let string = new_string(self.data, Some(self.id), string);
         self.inner_insert(key.as_ref(), Separator::Auto, string);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 6eec74d..f4dab10 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -1,7 +1,6 @@
 use std::fmt::{self, Write};
 use std::io;
 use std::iter;
-use std::mem;
 
 use bstr::{BStr, ByteSlice};
 #[cfg(feature = "serde-edits")]
@@ -49,15 +48,35 @@ pub(crate) fn new_bool(data: &mut Data, value: bool) -> Raw {
 }
 
 /// Construct a raw kind associated with a string.
-pub(crate) fn new_string<S>(data: &mut Data, string: S) -> Raw
+pub(crate) fn new_string<S>(data: &mut Data, parent: Option<Id>, string: S) -> Raw
 where
     S: AsRef<str>,
 {
-    let kind = RawStringKind::detect(string.as_ref());
+    let inline = is_inline(data, parent);
+    let kind = RawStringKind::detect(string.as_ref(), inline);
     let string = data.insert_str(string.as_ref());
     Raw::String(String::new(kind, string, string))
 }
 
+/// Test if values inside of the given parent are part of an inline collection.
+pub(crate) fn is_inline(data: &Data, mut parent: Option<Id>) -> bool {
+    while let Some(id) = parent {
+        match data.pair(id) {
+            (Raw::Mapping(raw), _) => {
+                return matches!(raw.kind, MappingKind::Inline { .. });
+            }
+            (Raw::Sequence(raw), _) => {
+                return matches!(raw.kind, SequenceKind::Inline { .. });
+            }
+            (_, layout) => {
+                parent = layout.parent;
+            }
+        }
+    }
+
+    false
+}
+
 /// Construct an indentation prefix.
 pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, StringId) {
     let parent = data.layout(id).parent;
@@ -509,36 +528,70 @@ pub(crate) enum RawStringKind {
 
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
-    pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
+    pub(crate) fn detect(string: &str, inline: bool) -> RawStringKind {
+        if is_scalar_like(string) {
             return RawStringKind::Single;
         }
 
-        let mut kind = RawStringKind::Bare;
-        let mut first = true;
+        RawStringKind::detect_key(string, inline)
+    }
 
-        for c in string.chars() {
-            let first = mem::take(&mut first);
+    /// Detect the appropriate kind to use for the given string in a key, where
+    /// it is never treated as anything but a string.
+    pub(crate) fn detect_key(string: &str, inline: bool) -> RawStringKind {
+        let must_escape = |c: char| {
+            c.is_control() || is_not_printable(c) || matches!(c, '\'' | '\u{2028}' | '\u{2029}')
+        };
 
-            match c {
-                '0'..='9' if first => {
-                    kind = RawStringKind::Single;
-                }
-                '\'' => {
-                    return RawStringKind::Double;
-                }
-                ':' => {
-                    kind = RawStringKind::Single;
-                }
-                b if b.is_control() => {
-                    return RawStringKind::Double;
-                }
-                _ => {}
-            }
+        if string.chars().any(must_escape) {
+            return RawStringKind::Double;
+        }
+
+        if is_plain(string, inline) {
+            RawStringKind::Bare
+        } else {
+            RawStringKind::Single
         }
+    }
+}
 
-        kind
+/// Test if a bare string could be something else than a string.
+fn is_scalar_like(string: &str) -> bool {
+    if ["~", "null", "true", "false"]
+        .iter()
+        .any(|s| string.eq_ignore_ascii_case(s))
+    {
+        return true;
     }
+
+    let unsigned = string.strip_prefix(['-', '+']).unwrap_or(string);
+    unsigned.starts_with(|c: char| c == '.' || c.is_ascii_digit())
+}
+
+/// Test if the given single-line string is legal without quotes.
+///
+/// See <https://yaml.org/spec/1.2.2/#plain-style>.
+fn is_plain(string: &str, inline: bool) -> bool {
+    let mut it = string.chars();
+
+    let first = match it.next() {
+        None
+        | Some(
+            ' ' | '?' | ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '"' | '%'
+            | '@' | '`',
+        ) => return false,
+        Some(first) => first,
+    };
+
+    if first == '-' && matches!(it.next(), None | Some(' ' | '-')) {
+        return false;
+    }
+
+    if string.ends_with(' ') || string.contains(':') || string.contains(" #") {
+        return false;
+    }
+
+    !inline || !string.contains([',', '[', ']', '{', '}'])
 }
 
 /// A YAML string.
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index b03a2b5..23d9bb5 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -430,7 +430,7 @@ impl<'a> SequenceMut<'a> {
     where
         S: AsRef<str>,
     {
-        let string = raw::new_string(self.data, string);
+        let string = raw::new_string(self.data, Some(self.id), string);
         self.inner_push(Separator::Auto, string);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 7e9c45d..d29330e 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -442,7 +442,8 @@ impl<'a> ValueMut<'a> {
     where
         S: AsRef<str>,
     {
-        let value = raw::new_string(self.data, string);
+        let parent = self.data.layout(self.id).parent;
+        let value = raw::new_string(self.data, parent, string);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From e56674467180b9b9f3f036dcca7fece40508f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 15/32] fix: quote inserted mapping keys which cannot be
 represented as bare strings

---
 src/yaml/mapping/mapping_mut.rs | 6 +++---
 src/yaml/raw.rs                 | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 6c36ed9..df70799 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -148,8 +148,8 @@ impl<'a> MappingMut<'a> {
     }
 
     /// Insert a value into the mapping.
-    fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
-        let key = self.data.insert_str(key);
+    fn inner_insert(&mut self, string: &[u8], separator: Separator<'_>, value: Raw) -> Id {
+        let key = self.data.insert_str(string);
 
         if let Some(id) = self
             .data
@@ -164,7 +164,7 @@ impl<'a> MappingMut<'a> {
             return id;
         }
 
-        let key = raw::String::new(raw::RawStringKind::Bare, key, key);
+        let key = raw::String::new(raw::new_key_kind(self.data, self.id, string), key, key);
 
         let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
             self.make_prefix()
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index f4dab10..2cf8ff8 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -58,6 +58,14 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Get the string kind to use for a new key in the given mapping.
+pub(crate) fn new_key_kind(data: &Data, mapping: Id, key: &[u8]) -> RawStringKind {
+    match key.to_str() {
+        Ok(key) => RawStringKind::detect_key(key, is_inline(data, Some(mapping))),
+        Err(..) => RawStringKind::Bare,
+    }
+}
+
 /// Test if values inside of the given parent are part of an inline collection.
 pub(crate) fn is_inline(data: &Data, mut parent: Option<Id>) -> bool {
     while let Some(id) = parent {
-- 
2.43.0


From a14fa26c470413c91b0672c768b5b8fae0c726b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 16/32] fix: do not write a trailing separator in inline
 collections which are empty

---
 src/yaml/raw.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 2cf8ff8..4c3fb00 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -893,7 +893,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -930,7 +930,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
@@ -1045,7 +1045,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -1078,7 +1078,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
-- 
2.43.0


From 73969645f8bcb173e74e271f27da45e41d92f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 17/32] fix: separate items added to inline collections with a
 space instead of a newline

---
 src/yaml/mapping/mapping_mut.rs   | 19 ++++++-------------
 src/yaml/raw.rs                   | 31 +++++++++++++++++++++++++++++++
 src/yaml/sequence/sequence_mut.rs | 20 +++++++-------------
 3 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index df70799..f703d05 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -136,15 +136,12 @@ impl<'a> MappingMut<'a> {
         Self { data, id }
     }
 
-    /// Make insertion prefix.
+    /// Make the prefix of an item added to this mapping.
     fn make_prefix(&mut self) -> StringId {
-        let mut out = Vec::new();
-        out.push(raw::NEWLINE);
-        out.resize(
-            self.data.mapping(self.id).indent.saturating_add(1),
-            raw::SPACE,
-        );
-        self.data.insert_str(out)
+        let raw = self.data.mapping(self.id);
+        let inline = matches!(raw.kind, raw::MappingKind::Inline { .. });
+        let (last, indent) = (raw.items.last().copied(), raw.indent);
+        raw::make_item_prefix(self.data, last, inline, indent)
     }
 
     /// Insert a value into the mapping.
@@ -166,11 +163,7 @@ impl<'a> MappingMut<'a> {
 
         let key = raw::String::new(raw::new_key_kind(self.data, self.id, string), key, key);
 
-        let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
-            self.make_prefix()
-        } else {
-            self.data.insert_str("")
-        };
+        let item_prefix = self.make_prefix();
 
         let item_id = self
             .data
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 4c3fb00..7c4516b 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -162,6 +162,37 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
     (indent, data.insert_str(prefix))
 }
 
+/// Construct the prefix of an item which is added to a collection.
+///
+/// `last` is the identifier of the item currently last in the collection.
+pub(crate) fn make_item_prefix(
+    data: &mut Data,
+    last: Option<Id>,
+    inline: bool,
+    indent: usize,
+) -> StringId {
+    let Some(last) = last else {
+        return data.insert_str("");
+    };
+
+    if inline {
+        let prefix = data.layout(last).prefix;
+        let string = data.str(prefix);
+
+        // Preserve the existing layout, but never duplicate comments.
+        if !string.is_empty() && string.trim().is_empty() {
+            return prefix;
+        }
+
+        return data.insert_str(" ");
+    }
+
+    let mut out = Vec::new();
+    out.push(NEWLINE);
+    out.resize(indent.saturating_add(1), SPACE);
+    data.insert_str(out)
+}
+
 /// Construct a raw kind associated with a string with a custom string kind.
 pub(crate) fn new_string_with<S>(data: &mut Data, string: S, kind: StringKind) -> Raw
 where
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 23d9bb5..e0e2312 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -90,24 +90,17 @@ impl<'a> SequenceMut<'a> {
         Self { data, id }
     }
 
-    /// Make insertion prefix.
+    /// Make the prefix of an item added to this sequence.
     fn make_prefix(&mut self) -> StringId {
-        let mut out = Vec::new();
-        out.push(raw::NEWLINE);
-        out.resize(
-            self.data.sequence(self.id).indent.saturating_add(1),
-            raw::SPACE,
-        );
-        self.data.insert_str(out)
+        let raw = self.data.sequence(self.id);
+        let inline = matches!(raw.kind, raw::SequenceKind::Inline { .. });
+        let (last, indent) = (raw.items.last().copied(), raw.indent);
+        raw::make_item_prefix(self.data, last, inline, indent)
     }
 
     /// Push a value on the sequence.
     fn inner_push(&mut self, separator: Separator, value: Raw) -> Id {
-        let item_prefix = if self.data.sequence(self.id).items.last().is_some() {
-            self.make_prefix()
-        } else {
-            self.data.insert_str("")
-        };
+        let item_prefix = self.make_prefix();
 
         let item_id = self
             .data
@@ -115,6 +108,7 @@ impl<'a> SequenceMut<'a> {
 
         let value_prefix = match separator {
             Separator::Auto => match self.data.sequence(self.id).items.last() {
+                _ if raw::is_inline(self.data, Some(self.id)) => self.data.insert_str(""),
                 Some(last) => {
                     self.data
                         .layout(self.data.sequence_item(*last).value)
-- 
2.43.0


From 2e99986f1df27a6986ba6a290acacb90671abc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 18/32] fix: create inline collections inside of inline
 collections

---
 src/yaml/sequence/sequence_mut.rs |  9 ++++++++-
 src/yaml/value_mut.rs             | 28 ++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index e0e2312..eed2fea 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -389,7 +389,14 @@ impl<'a> SequenceMut<'a> {
     /// # Ok::<_, anyhow::Error>(())
     /// ```
     pub fn push(&mut self, separator: Separator<'_>) -> ValueMut<'_> {
-        let value = self.inner_push(separator, Raw::Null(raw::Null::Empty));
+        // NB: empty items cannot be represented in an inline sequence.
+        let null = if raw::is_inline(self.data, Some(self.id)) {
+            raw::Null::Keyword(self.data.insert_str("null"))
+        } else {
+            raw::Null::Empty
+        };
+
+        let value = self.inner_push(separator, Raw::Null(null));
         ValueMut::new(self.data, value)
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index d29330e..3c6ae23 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -692,14 +692,24 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_mapping(self) -> MappingMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Mapping(..)) {
-            let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+            let layout = *self.data.layout(self.id);
+
+            let (indent, prefix, kind) = if raw::is_inline(self.data, layout.parent) {
+                let suffix = self.data.insert_str("");
+                let trailing = false;
+                let kind = raw::MappingKind::Inline { trailing, suffix };
+                (0, layout.prefix, kind)
+            } else {
+                let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+                (indent, prefix, raw::MappingKind::Mapping)
+            };
 
             self.data.replace_with(
                 self.id,
                 prefix,
                 Raw::Mapping(raw::Mapping {
                     indent,
-                    kind: raw::MappingKind::Mapping,
+                    kind,
                     items: Vec::new(),
                 }),
             );
@@ -758,14 +768,24 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_sequence(self) -> SequenceMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Sequence(..)) {
-            let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+            let layout = *self.data.layout(self.id);
+
+            let (indent, prefix, kind) = if raw::is_inline(self.data, layout.parent) {
+                let suffix = self.data.insert_str("");
+                let trailing = false;
+                let kind = raw::SequenceKind::Inline { trailing, suffix };
+                (0, layout.prefix, kind)
+            } else {
+                let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+                (indent, prefix, raw::SequenceKind::Mapping)
+            };
 
             self.data.replace_with(
                 self.id,
                 prefix,
                 Raw::Sequence(raw::Sequence {
                     indent,
-                    kind: raw::SequenceKind::Mapping,
+                    kind,
                     items: Vec::new(),
                 }),
             );
-- 
2.43.0


From 8459f5ef29fe3b9c7bb05d35e975c0f1c8b8c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 19/32] fix: indent blocks according to the collection they are
 part of

---
 src/yaml/mapping/mapping_mut.rs   |  2 +-
 src/yaml/raw.rs                   | 25 ++++++++++++++++++++-----
 src/yaml/sequence/sequence_mut.rs |  2 +-
 src/yaml/value_mut.rs             |  4 +++-
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index f703d05..34d7f23 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -652,7 +652,7 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block(self.data, self.id, Some(self.id), iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 7c4516b..3405094 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -209,14 +209,24 @@ where
 }
 
 /// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+///
+/// The `parent` is the collection the block is going to be part of, or `None` if
+/// it replaces the root `id`.
+pub(crate) fn new_block<I>(
+    data: &mut Data,
+    id: Id,
+    parent: Option<Id>,
+    iter: I,
+    block: Block,
+) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
 {
-    let (indent, prefix) = match data.raw(id) {
-        Raw::Mapping(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        Raw::Sequence(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
+    // The collection which the block is going to be part of, if any.
+    let (indent, prefix) = match parent.map(|id| data.raw(id)) {
+        Some(Raw::Mapping(raw)) => (raw.indent.wrapping_add(2), BStr::new(b"")),
+        Some(Raw::Sequence(raw)) => (raw.indent.wrapping_add(2), BStr::new(b"")),
         _ => {
             let prefix = data.str(data.layout(id).prefix);
 
@@ -259,9 +269,14 @@ where
         out.push(NEWLINE);
     }
 
-    let original = data.insert_str(&original);
     let string = data.insert_str(out);
 
+    // NB: blocks cannot be represented inside of inline collections.
+    if is_inline(data, parent) {
+        return Raw::String(self::String::new(RawStringKind::Double, string, string));
+    }
+
+    let original = data.insert_str(&original);
     Raw::String(self::String::new(RawStringKind::Original, string, original))
 }
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index eed2fea..18b3ae2 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -549,7 +549,7 @@ impl<'a> SequenceMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block(self.data, self.id, Some(self.id), iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 3c6ae23..ad3017d 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -575,7 +575,9 @@ impl<'a> ValueMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let parent = self.data.layout(self.id).parent;
+        let parent = parent.and_then(|id| self.data.layout(id).parent);
+        let value = raw::new_block(self.data, self.id, parent, iter, block);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From e8bfc9517321e2728efc6887681678d5e31cc6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 20/32] fix: do not recurse infinitely or lose numbers which do
 not fit their hint when using serde

---
 src/yaml/serde/de.rs  | 66 +++++++++++++++++++++++++++--------
 src/yaml/serde/ser.rs | 80 ++++++++++++++++---------------------------
 2 files changed, 82 insertions(+), 64 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..97815df 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -39,20 +39,36 @@ impl<'de> Deserializer<'de> for Value<'de> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
-            },
+            raw::Raw::Number(raw) => {
+                macro_rules! visit {
+                    ($as:ident, $visit:ident) => {
+                        if let Some(value) = self.$as() {
+                            return visitor.$visit(value);
+                        }
+                    };
+                }
+
+                match raw.hint {
+                    RawNumberHint::Float32 => visit!(as_f32, visit_f32),
+                    RawNumberHint::Float64 => visit!(as_f64, visit_f64),
+                    RawNumberHint::Unsigned8 => visit!(as_u8, visit_u8),
+                    RawNumberHint::Unsigned16 => visit!(as_u16, visit_u16),
+                    RawNumberHint::Unsigned32 => visit!(as_u32, visit_u32),
+                    RawNumberHint::Unsigned64 => visit!(as_u64, visit_u64),
+                    RawNumberHint::Unsigned128 => visit!(as_u128, visit_u128),
+                    RawNumberHint::Signed8 => visit!(as_i8, visit_i8),
+                    RawNumberHint::Signed16 => visit!(as_i16, visit_i16),
+                    RawNumberHint::Signed32 => visit!(as_i32, visit_i32),
+                    RawNumberHint::Signed64 => visit!(as_i64, visit_i64),
+                    RawNumberHint::Signed128 => visit!(as_i128, visit_i128),
+                }
+
+                // The number doesn't fit the hinted type, so use a wider one.
+                visit!(as_u128, visit_u128);
+                visit!(as_i128, visit_i128);
+                visit!(as_f64, visit_f64);
+                Err(Self::Error::custom("number is not supported"))
+            }
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
@@ -171,6 +187,28 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
diff --git a/src/yaml/serde/ser.rs b/src/yaml/serde/ser.rs
index 6cc8218..595af8f 100644
--- a/src/yaml/serde/ser.rs
+++ b/src/yaml/serde/ser.rs
@@ -15,56 +15,36 @@ impl Serialize for Value<'_> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => serializer.serialize_none(),
             raw::Raw::Boolean(bool) => serializer.serialize_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => match self.as_f32() {
-                    Some(value) => serializer.serialize_f32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Float64 => match self.as_f64() {
-                    Some(value) => serializer.serialize_f64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned8 => match self.as_u8() {
-                    Some(value) => serializer.serialize_u8(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned16 => match self.as_u16() {
-                    Some(value) => serializer.serialize_u16(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned32 => match self.as_u32() {
-                    Some(value) => serializer.serialize_u32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned64 => match self.as_u64() {
-                    Some(value) => serializer.serialize_u64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned128 => match self.as_u128() {
-                    Some(value) => serializer.serialize_u128(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed8 => match self.as_i8() {
-                    Some(value) => serializer.serialize_i8(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed16 => match self.as_i16() {
-                    Some(value) => serializer.serialize_i16(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed32 => match self.as_i32() {
-                    Some(value) => serializer.serialize_i32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed64 => match self.as_i64() {
-                    Some(value) => serializer.serialize_i64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed128 => match self.as_i128() {
-                    Some(value) => serializer.serialize_i128(value),
-                    None => serializer.serialize_none(),
-                },
-            },
+            raw::Raw::Number(raw) => {
+                macro_rules! serialize {
+                    ($as:ident, $serialize:ident) => {
+                        if let Some(value) = self.$as() {
+                            return serializer.$serialize(value);
+                        }
+                    };
+                }
+
+                match raw.hint {
+                    RawNumberHint::Float32 => serialize!(as_f32, serialize_f32),
+                    RawNumberHint::Float64 => serialize!(as_f64, serialize_f64),
+                    RawNumberHint::Unsigned8 => serialize!(as_u8, serialize_u8),
+                    RawNumberHint::Unsigned16 => serialize!(as_u16, serialize_u16),
+                    RawNumberHint::Unsigned32 => serialize!(as_u32, serialize_u32),
+                    RawNumberHint::Unsigned64 => serialize!(as_u64, serialize_u64),
+                    RawNumberHint::Unsigned128 => serialize!(as_u128, serialize_u128),
+                    RawNumberHint::Signed8 => serialize!(as_i8, serialize_i8),
+                    RawNumberHint::Signed16 => serialize!(as_i16, serialize_i16),
+                    RawNumberHint::Signed32 => serialize!(as_i32, serialize_i32),
+                    RawNumberHint::Signed64 => serialize!(as_i64, serialize_i64),
+                    RawNumberHint::Signed128 => serialize!(as_i128, serialize_i128),
+                }
+
+                // The number doesn't fit the hinted type, so use a wider one.
+                serialize!(as_u128, serialize_u128);
+                serialize!(as_i128, serialize_i128);
+                serialize!(as_f64, serialize_f64);
+                serializer.serialize_none()
+            }
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
-- 
2.43.0


From 3dee303d87ad54a1cfb6bc197ad6016c80334f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 21/32] fix: deserialize unit, newtype structs and enums
 through serde

---
 src/yaml/serde/de.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 97815df..a976fa7 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -1,4 +1,5 @@
 use bstr::{BStr, ByteSlice};
+use serde::de::value::{BorrowedStrDeserializer, MapAccessDeserializer};
 use serde::de::{self, Error as _, IntoDeserializer, MapAccess, SeqAccess, Visitor};
 use serde::Deserializer;
 
@@ -302,7 +303,10 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.data.raw(self.id) {
+            raw::Raw::Null(..) => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -314,7 +318,10 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.data.raw(self.id) {
+            raw::Raw::Null(..) => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -326,7 +333,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
@@ -398,7 +405,15 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        if let Some(mapping) = self.as_mapping() {
+            let iter = MappingIter::new(mapping.into_iter());
+            return visitor.visit_enum(MapAccessDeserializer::new(iter));
+        }
+
+        match self.as_str() {
+            Some(variant) => visitor.visit_enum(BorrowedStrDeserializer::new(variant)),
+            None => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 6bc1f7ed7f446c2b3e23409d4e6e7b2feae3c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 22/32] fix: deserialize mapping keys as borrowed strings when
 they are valid UTF-8

---
 src/yaml/serde/de.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index a976fa7..38d5a30 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -452,7 +452,10 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_bytes(self.string)
+        match self.string.to_str() {
+            Ok(string) => visitor.visit_borrowed_str(string),
+            Err(..) => visitor.visit_borrowed_bytes(self.string),
+        }
     }
 
     #[inline]
@@ -588,7 +591,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_some(self)
     }
 
     #[inline]
@@ -620,7 +623,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
@@ -683,7 +686,10 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.string.to_str() {
+            Ok(variant) => visitor.visit_enum(BorrowedStrDeserializer::new(variant)),
+            Err(..) => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 426f35079671952bde4c5a687cebc993998b99e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 23/32] fix: indent collections created in the first item of a
 nested sequence

---
 src/yaml/raw.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 3405094..f57d4a3 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -135,10 +135,8 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        if let Some(Raw::SequenceItem(..)) = parent.map(|id| data.raw(id)) {
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From bf75c941129fafaedde1372590f926f52fbf62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 24/32] fix: integers which are out of range do not wrap around

---
 src/yaml/number.rs | 46 ++++++++++++++++++++++++++++++++--------------
 src/yaml/value.rs  | 29 +++++++++++++++--------------
 2 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/yaml/number.rs b/src/yaml/number.rs
index 26d8a4c..44004b5 100644
--- a/src/yaml/number.rs
+++ b/src/yaml/number.rs
@@ -1,12 +1,30 @@
 use core::fmt;
+use core::str::FromStr;
 
 use bstr::{BStr, ByteSlice};
 
 use crate::yaml::data::Data;
 use crate::yaml::raw;
 
+/// Parse the raw content of a number as a float.
+pub(super) fn parse_float<T>(string: &BStr) -> Option<T>
+where
+    T: lexical_core::FromLexical,
+{
+    lexical_core::parse(string).ok()
+}
+
+/// Parse the raw content of a number as an integer, or `None` if it's not one
+/// or it doesn't fit.
+pub(super) fn parse_integer<T>(string: &BStr) -> Option<T>
+where
+    T: FromStr,
+{
+    string.to_str().ok()?.parse().ok()
+}
+
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:path) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -24,7 +42,7 @@ macro_rules! as_number {
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
             let string = self.data.str(self.raw.string);
-            lexical_core::parse(string).ok()
+            $parse(string)
         }
     };
 }
@@ -77,18 +95,18 @@ impl<'a> Number<'a> {
         self.data.str(self.raw.string)
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, parse_float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, parse_float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, parse_integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, parse_integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, parse_integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, parse_integer);
+    as_number!(as_u128, u128, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i128, i128, "128-bit signed integer", -42, parse_integer);
 }
 
 impl fmt::Debug for Number<'_> {
diff --git a/src/yaml/value.rs b/src/yaml/value.rs
index 7d3423c..61d4394 100644
--- a/src/yaml/value.rs
+++ b/src/yaml/value.rs
@@ -5,6 +5,7 @@ use bstr::{BStr, ByteSlice};
 use serde::{Deserialize, Serialize};
 
 use crate::yaml::data::{Data, Id};
+use crate::yaml::number::{parse_float, parse_integer};
 use crate::yaml::raw::Raw;
 use crate::yaml::{Any, Mapping, Number, Sequence, String};
 
@@ -141,7 +142,7 @@ pub struct Value<'a> {
 }
 
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:path) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -160,7 +161,7 @@ macro_rules! as_number {
             match self.data.raw(self.id) {
                 Raw::Number(raw) => {
                     let string = self.data.str(raw.string);
-                    lexical_core::parse(string).ok()
+                    $parse(string)
                 }
                 _ => None,
             }
@@ -568,18 +569,18 @@ impl<'a> Value<'a> {
         }
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, parse_float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, parse_float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, parse_integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, parse_integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, parse_integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, parse_integer);
+    as_number!(as_u128, u128, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i128, i128, "128-bit signed integer", -42, parse_integer);
 }
 
 impl fmt::Display for Value<'_> {
-- 
2.43.0


From f5979c5db9d237bf5a14a97c0496fcd888e6afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 25/32] fix: double quote strings with control characters even
 if they look like a number

---
 src/yaml/raw.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index f57d4a3..dfba83b 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -581,11 +581,10 @@ pub(crate) enum RawStringKind {
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
     pub(crate) fn detect(string: &str, inline: bool) -> RawStringKind {
-        if is_scalar_like(string) {
-            return RawStringKind::Single;
+        match RawStringKind::detect_key(string, inline) {
+            RawStringKind::Bare if is_scalar_like(string) => RawStringKind::Single,
+            kind => kind,
         }
-
-        RawStringKind::detect_key(string, inline)
     }
 
     /// Detect the appropriate kind to use for the given string in a key, where
-- 
2.43.0


From c6e6ab403f0106bb79d090d7573f4d8031c3c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 26/32] fix: indent values which replace sequences on the same
 level as their key

---
 src/yaml/data.rs                | 37 +++++++++++++++++++++++++++++++++
 src/yaml/mapping/mapping_mut.rs |  2 +-
 src/yaml/value_mut.rs           | 14 ++++++-------
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9207f74..685d8c5 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -306,6 +306,43 @@ impl Data {
         self.drop_kind(removed);
     }
 
+    /// Replace the value `id` with a value which is not a tabular collection.
+    pub(crate) fn replace_value(&mut self, id: Id, raw: raw::Raw) {
+        // NB: sequences can be on the same level as the mapping they are part
+        // of, but other values have to be indented.
+        if self.is_level_sequence(id) {
+            let mut prefix = self.prefix(id).to_vec();
+            prefix.extend([raw::SPACE; 2]);
+            let prefix = self.insert_str(prefix);
+            self.replace_with(id, prefix, raw);
+        } else {
+            self.replace(id, raw);
+        }
+    }
+
+    /// Test if the given value is a tabular sequence which has the same
+    /// indentation as the mapping it is part of.
+    fn is_level_sequence(&self, id: Id) -> bool {
+        let Some(Entry {
+            raw: raw::Raw::Sequence(sequence),
+            layout,
+        }) = self.slab.get(id.get())
+        else {
+            return false;
+        };
+
+        if !matches!(sequence.kind, raw::SequenceKind::Mapping) {
+            return false;
+        }
+
+        let parent = layout.parent.and_then(|id| self.layout(id).parent);
+
+        match parent.map(|id| self.raw(id)) {
+            Some(raw::Raw::Mapping(mapping)) => sequence.indent <= mapping.indent,
+            _ => false,
+        }
+    }
+
     /// Replace with indentation.
     pub(crate) fn replace_with(&mut self, id: Id, prefix: StringId, raw: raw::Raw) {
         let Some(value) = self.slab.get_mut(id.get()) else {
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 34d7f23..2a67829 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -157,7 +157,7 @@ impl<'a> MappingMut<'a> {
             .find(|item| item.key.id == key)
             .map(|item| item.value)
         {
-            self.data.replace(id, value);
+            self.data.replace_value(id, value);
             return id;
         }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index ad3017d..622fb47 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -334,7 +334,7 @@ macro_rules! set_float {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = ryu::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.replace_value(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -358,7 +358,7 @@ macro_rules! set_number {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = itoa::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.replace_value(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -392,7 +392,7 @@ impl<'a> ValueMut<'a> {
             Null::Tilde => raw::Null::Tilde,
             Null::Empty => raw::Null::Empty,
         };
-        self.data.replace(self.id, Raw::Null(raw_kind));
+        self.data.replace_value(self.id, Raw::Null(raw_kind));
     }
 
     /// Set the value as a string.
@@ -444,7 +444,7 @@ impl<'a> ValueMut<'a> {
     {
         let parent = self.data.layout(self.id).parent;
         let value = raw::new_string(self.data, parent, string);
-        self.data.replace(self.id, value);
+        self.data.replace_value(self.id, value);
     }
 
     /// Set the value as a string with a custom [`StringKind`].
@@ -470,7 +470,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string_with(self.data, string, kind);
-        self.data.replace(self.id, value);
+        self.data.replace_value(self.id, value);
     }
 
     /// Set the value as a literal block.
@@ -578,7 +578,7 @@ impl<'a> ValueMut<'a> {
         let parent = self.data.layout(self.id).parent;
         let parent = parent.and_then(|id| self.data.layout(id).parent);
         let value = raw::new_block(self.data, self.id, parent, iter, block);
-        self.data.replace(self.id, value);
+        self.data.replace_value(self.id, value);
     }
 
     /// Set the value as a boolean.
@@ -597,7 +597,7 @@ impl<'a> ValueMut<'a> {
     /// ```
     pub fn set_bool(&mut self, value: bool) {
         let value = raw::new_bool(self.data, value);
-        self.data.replace(self.id, value);
+        self.data.replace_value(self.id, value);
     }
 
     set_float!(set_f32, f32, "32-bit float", 10.42, F32);
-- 
2.43.0


From 9fa0f54cfb50fc4dca895f02d48fc185cc1cf54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 27/32] fix: do not treat the line break following a block
 scalar as part of it

---
 src/yaml/parsing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9adb55e..e468ddd 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1004,6 +1004,11 @@ impl<'a> Parser<'a> {
             nl = 0;
         }
 
+        // NB: carriage returns are part of the line break following the block.
+        if end > start && self.input.get(end - 1) == Some(&b'\r') {
+            end -= 1;
+        }
+
         self.n = end;
         let ws = self.ws();
 
-- 
2.43.0


From 3b84ca8854f7ec9513b9dcd334e2aba269ea037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 28/32] fix: do not repeat a document header in the indentation
 of new collections

---
 src/yaml/raw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index dfba83b..a7167ac 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -150,7 +150,8 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
     prefix.push(NEWLINE);
 
     for _ in 0..indent {
-        if let Some(c) = existing.next() {
+        // NB: do not repeat a document header.
+        if let Some(c) = existing.next().filter(|c| c.is_whitespace()) {
             prefix.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
         } else {
             prefix.push(SPACE);
-- 
2.43.0


From f96337d0a5cd5fd15c5f08dea903bcee9c28000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 29/32] fix: do not pad the parts of a document which is
 displayed with a width

---
 src/yaml/document.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 85c7dde..a9b512e 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -275,11 +275,11 @@ impl Document {
 
     // Display helper for document.
     fn display(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        use std::fmt::Display;
-
-        self.data.prefix(self.root).fmt(f)?;
+        // NB: written without the options of the formatter, which would pad the
+        // parts of the document.
+        write!(f, "{}", self.data.prefix(self.root))?;
         self.data.raw(self.root).display(&self.data, f, None)?;
-        self.data.str(self.suffix).fmt(f)?;
+        write!(f, "{}", self.data.str(self.suffix))?;
         Ok(())
     }
 }
@@ -318,7 +318,7 @@ impl fmt::Display for Document {
                 "nondestructive_write_to_eq: ensure write_to produces the same output"
             );
 
-            string.fmt(f)?;
+            f.write_str(&string)?;
         } else {
             self.display(f)?;
         }
-- 
2.43.0


From b5eb8e9837887da4f9a1d8d1ef506d8e25875106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 30/32] fix: store lines which a block cannot represent so that
 they are read back

---
 src/yaml/raw.rs | 71 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 5 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index a7167ac..06cfa4a 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -207,6 +207,49 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Determines if lines can be represented as a block, the indentation of which
+/// is detected from the first one of them.
+#[derive(Default)]
+struct BlockLines {
+    /// If a line which is not empty has been seen.
+    any: bool,
+    /// If the last line which is not empty is white space.
+    blank: bool,
+    /// If a line cannot be represented.
+    other: bool,
+}
+
+impl BlockLines {
+    fn push(&mut self, line: &str, literal: bool) {
+        let must_escape = |c: char| {
+            c.is_control() && c != '\t'
+                || is_not_printable(c)
+                || matches!(c, '\u{2028}' | '\u{2029}')
+        };
+
+        self.other |= line.contains(must_escape);
+
+        if !literal {
+            // NB: these are folded in other ways.
+            self.other |= line.is_empty() || line.trim_matches([' ', '\t']) != line;
+            return;
+        }
+
+        if line.is_empty() {
+            return;
+        }
+
+        self.blank = line.trim_matches([' ', '\t']).is_empty();
+        self.other |= self.blank && line.contains('\t');
+        self.other |= !self.any && line.starts_with([' ', '\t']);
+        self.any = true;
+    }
+
+    fn is_block(&self) -> bool {
+        !self.other && !self.blank
+    }
+}
+
 /// Construct a block with the given configuration.
 ///
 /// The `parent` is the collection the block is going to be part of, or `None` if
@@ -251,27 +294,45 @@ where
     original.extend(chomp.as_byte());
 
     let mut it = iter.into_iter().peekable();
+    let is_empty = it.peek().is_none();
+    let mut lines = BlockLines::default();
 
     while let Some(part) = it.next() {
+        let part = part.as_ref();
+        lines.push(part, matches!(block, Block::Literal(..)));
+
         original.push(NEWLINE);
         original.extend_from_slice(prefix.as_bytes());
         original.resize(original.len() + indent, SPACE);
-        original.extend(part.as_ref().as_bytes());
-        out.extend(part.as_ref().as_bytes());
+        original.extend(part.as_bytes());
+        out.extend(part.as_bytes());
 
         if it.peek().is_some() {
             out.push(join);
         }
     }
 
-    if let Chomp::Clip | Chomp::Keep = chomp {
+    // NB: line breaks at the end are only kept if that is asked for.
+    if let Chomp::Clip | Chomp::Strip = chomp {
+        let n = out.iter().rposition(|b| *b != NEWLINE);
+        out.truncate(n.map_or(0, |n| n.saturating_add(1)));
+    }
+
+    let terminated = match chomp {
+        Chomp::Strip => false,
+        Chomp::Clip => !out.is_empty(),
+        Chomp::Keep => !is_empty,
+    };
+
+    if terminated {
         out.push(NEWLINE);
     }
 
     let string = data.insert_str(out);
 
-    // NB: blocks cannot be represented inside of inline collections.
-    if is_inline(data, parent) {
+    // NB: blocks cannot be represented inside of inline collections, and there
+    // are lines which cannot be represented in blocks.
+    if !lines.is_block() || is_inline(data, parent) {
         return Raw::String(self::String::new(RawStringKind::Double, string, string));
     }
 
-- 
2.43.0


From e3e10a2e8a50e9a09b5b7770a0148526df6dc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 31/32] fix: keep distinct strings apart which have the same
 hash

---
 src/yaml/data.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 685d8c5..e5ad9e9 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -118,7 +118,17 @@ impl Data {
         string.as_ref().hash(&mut hasher);
         let hash = hasher.finish_ext();
         let hash = hash.to_le_bytes();
-        let id = StringId(hash);
+        let mut id = StringId(hash);
+        let mut seed = 0u64;
+
+        // NB: distinct strings can be made to have the same hash, so ensure that
+        // the identifier is not the one of another string.
+        while matches!(self.strings.get(&id), Some(s) if s.as_ref() != string.as_ref()) {
+            seed = seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
+            let mut hasher = Hash128::with_seed(seed);
+            string.as_ref().hash(&mut hasher);
+            id = StringId(hasher.finish_ext().to_le_bytes());
+        }
 
         if let hash_map::Entry::Vacant(e) = self.strings.entry(id) {
             e.insert(string.as_ref().into());
-- 
2.43.0


From c3143630761664718f7d671fb8ff57ddb69e8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 32/32] fix: identify strings in the same way on every platform

---
 src/yaml/data.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index e5ad9e9..aef73b4 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -1,6 +1,6 @@
 use std::collections::hash_map::{self, HashMap};
 use std::fmt;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::mem;
 use std::num::NonZeroUsize;
 
@@ -89,6 +89,12 @@ pub(crate) struct Entry {
     layout: raw::Layout,
 }
 
+/// Hash a string in the same way on every platform.
+fn hash_str(hasher: &mut Hash128, string: &[u8]) {
+    hasher.write(&(string.len() as u64).to_le_bytes());
+    hasher.write(string);
+}
+
 /// Strings cache.
 #[derive(Clone, Default)]
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
@@ -115,7 +121,7 @@ impl Data {
         B: AsRef<[u8]>,
     {
         let mut hasher = Hash128::default();
-        string.as_ref().hash(&mut hasher);
+        hash_str(&mut hasher, string.as_ref());
         let hash = hasher.finish_ext();
         let hash = hash.to_le_bytes();
         let mut id = StringId(hash);
@@ -126,7 +132,7 @@ impl Data {
         while matches!(self.strings.get(&id), Some(s) if s.as_ref() != string.as_ref()) {
             seed = seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
             let mut hasher = Hash128::with_seed(seed);
-            string.as_ref().hash(&mut hasher);
+            hash_str(&mut hasher, string.as_ref());
             id = StringId(hasher.finish_ext().to_le_bytes());
         }
 
-- 
2.43.0

