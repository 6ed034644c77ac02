From 153235407206ddf8c62b2bca5e5e2efaab5d5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 01/22] fix: append delta output instead of copying over an
 empty buffer

copy_from_slice on the (empty) result panicked for every delta object.
---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..0a3e004 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -61,7 +61,7 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
-- 
2.43.0


From 96e9e31325dda3bb9eaf78c39b9a53180b09f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 02/22] fix: test the top bit for delta copy commands

0b1000_000 is bit 6, so copies were taken for inserts and vice versa.
---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 0a3e004..5e03914 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -132,7 +132,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From 7e0aa18c0ea7bb50178995a3c713f053d25e84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 03/22] fix: apply delta chains starting from the base object

---
 src/object/database/packed/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..2c57b44 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,7 +127,7 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
+        for entry in chain.into_iter().rev() {
             let (new_header, new_base) = self.apply_delta(base, entry)?;
             header = new_header;
             base = new_base;
-- 
2.43.0


From 6099d94fd29582af6ea408b4425fe1764c19dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 04/22] fix: give an object stored as a delta the kind of its
 base

---
 src/object/database/packed/pack.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 2c57b44..7b9342e 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -128,7 +128,7 @@ impl PackFile {
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
         for entry in chain.into_iter().rev() {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -196,6 +196,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        base_kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -203,7 +204,7 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let result = apply_delta(base_kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
 
         Ok(self
             .cache
-- 
2.43.0


From 001805de654127cd842c0b451480f62c6b078cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 05/22] fix: inflate packed objects to their declared length
 before using them

---
 src/object/database/packed/pack.rs |  8 +++++---
 src/object/database/reader.rs      | 26 +++++---------------------
 src/parse/buffer.rs                | 22 ++++++----------------
 3 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 7b9342e..ce85da8 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,9 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let data_offset = offset + buffer.pos() as u64;
+                    buffer.seek(SeekFrom::Start(data_offset))?;
+                    let base = buffer.decompress().read_to_end(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -204,7 +205,8 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(base_kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let bytes = buffer.decompress().read_to_end(delta.header.len)?;
+        let result = apply_delta(base_kind, &base, &mut parse::Buffer::new(&*bytes))?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..c78506c 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,11 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    File(ZlibDecoder<BufReader<fs_err::File>>),
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +25,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +35,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +63,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..69bf96f 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,5 +1,4 @@
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -40,14 +39,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Clear the internal buffer
     pub fn clear_buffer(&mut self) {
         self.pos = 0;
@@ -62,15 +53,14 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
+    /// Return a buffer that decompresses the zlib stream starting at the current position
+    /// of the reader.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress<'a>(&'a mut self) -> Buffer<ZlibDecoder<impl Read + 'a>> {
         debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
 
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
+        Buffer::new(ZlibDecoder::new(self.reader.by_ref()))
     }
 
     /// Read an exact number of bytes and create a parser.
-- 
2.43.0


From 04c32a00436d474a23c51d9d1767c0748d06b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 06/22] fix: keep buffered delta bytes between commands

---
 src/object/database/packed/delta.rs | 1 -
 src/parse/buffer.rs                 | 6 ------
 2 files changed, 7 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5e03914..5389e4c 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -62,7 +62,6 @@ where
         };
 
         result.extend_from_slice(src);
-        delta.clear_buffer();
     }
 
     if header.result_len != result.len() {
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 69bf96f..4c62c52 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -39,12 +39,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Clear the internal buffer
-    pub fn clear_buffer(&mut self) {
-        self.pos = 0;
-        self.buffer.clear();
-    }
-
     /// Create a parser for the given range of bytes.
     pub fn parser<I>(&self, range: I) -> Parser<&[u8]>
     where
-- 
2.43.0


From 201bc277bc1ebf658374e446ffba71828e2b6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 07/22] fix: decode the bias in base offsets of ofs-delta
 objects

---
 src/object/database/packed/pack.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index ce85da8..f649f20 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -281,11 +281,14 @@ impl<R: Read> parse::Buffer<R> {
             .ok_or(ReadPackFileError::Other("invalid delta offset"))?;
         let parser = &mut self.parser(range);
 
-        let mut offset: u64 = 0;
+        let mut offset = u64::from(parser.parse_byte()? & 0b0111_1111);
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            // Each continuation byte is biased by one so that encodings are unique.
+            offset = offset
+                .saturating_add(1)
+                .saturating_mul(128)
+                .saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From 199635c1be8d22f9e8a90f3248569e49f74e77af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 08/22] fix: reject cyclic chains of ref-deltas

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index f649f20..0faf5ef 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -188,7 +188,8 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            // A chain can visit each object in the pack at most once.
+            if base_offset == offset || chain.len() >= self.count as usize {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From a53f0be94209dbf36cdd7a185911851b04ee8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 09/22] fix: bound the number of symbolic references followed
 when peeling

---
 src/reference.rs          |  2 ++
 src/reference/symbolic.rs | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..a4236b0 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -36,6 +36,8 @@ pub enum Error {
     ReferenceNameInvalidUtf16,
     #[error("reference was given as invalid Utf8")]
     ReferenceNameInvalidUtf8,
+    #[error("too many levels of symbolic references")]
+    TooManySymbolicReferences,
     #[error("failed to dereference to an object")]
     DereferencingFailed(
         #[source]
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..f3133fb 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -2,9 +2,13 @@ use bstr::{BStr, ByteSlice};
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
+// The number of symbolic references that can be followed before giving up, so that
+// references which form a cycle are reported as an error.
+const MAX_PEEL_DEPTH: usize = 10;
+
 #[derive(PartialEq)]
 pub struct Symbolic {
     direct_peel: Option<Direct>,
@@ -31,10 +35,22 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
-        match &self.direct_peel {
-            Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+        let mut next;
+        let mut symbolic = self;
+        for _ in 0..MAX_PEEL_DEPTH {
+            if let Some(direct) = &symbolic.direct_peel {
+                return direct.object(repo);
+            }
+
+            let reference = repo.reference_database().reference(&symbolic.data)?;
+            match reference.target {
+                ReferenceTarget::Direct(direct) => return direct.object(repo),
+                ReferenceTarget::Symbolic(target) => next = target,
+            }
+            symbolic = &next;
         }
+
+        Err(Error::TooManySymbolicReferences)
     }
 }
 
-- 
2.43.0


From f1b8933a61390eb4dc20610f7df8ebb2ddb458fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 10/22] fix: reject objects with more buffered data than their
 declared length

---
 src/parse/buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 4c62c52..06b080d 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -145,6 +145,10 @@ impl<R: Read> Buffer<R> {
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
 
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
+
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
         // ahead of time, we can avoid this.
-- 
2.43.0


From ea89d98ba287be41497d9271e0a479baa4f5f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 11/22] fix: reject pack indexes with a partial large offset
 entry

---
 src/object/database/packed/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..603795b 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -135,6 +135,13 @@ impl IndexFile {
             ));
         }
 
+        // The large offset table at the end of the file is made up of 8 byte entries
+        if (parser.remaining() - min_size) % 8 != 0 {
+            return Err(ReadIndexFileError::Other(
+                "index length is an invalid length",
+            ));
+        }
+
         Ok(IndexFile {
             data: parser.into_inner(),
             count,
-- 
2.43.0


From af243128ed6abb2968bd68186042471d9c3bbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 12/22] fix: grow read buffers with the data read, not the
 declared length

---
 src/parse/buffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 06b080d..869799a 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -9,6 +9,10 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+// The lengths passed to a buffer may come from untrusted data, so only grow it as data is
+// actually read.
+const MAX_READ_LEN: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -170,7 +174,8 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
-            self.buffer.resize(end, b'\0');
+            self.buffer
+                .resize(end.min(old_len.saturating_add(MAX_READ_LEN)), b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
                 Ok(read) => {
-- 
2.43.0


From e6b218a8bf62f9acc5111af0423cbdd6797b8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 13/22] fix: bound the allocation for a delta result by the
 data it is built from

---
 src/object/database/packed/delta.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5389e4c..1a1a9a6 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -26,6 +26,9 @@ pub(in crate::object::database::packed) enum DeltaError {
     Parse(#[from] parse::Error),
 }
 
+// The result length is untrusted, so don't allocate all of it up front.
+const MAX_INITIAL_CAPACITY: usize = 64 * 1024;
+
 enum Command {
     CopyFromBase { offset: usize, len: usize },
     CopyFromDelta { len: usize },
@@ -40,7 +43,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::with_capacity(header.result_len.min(MAX_INITIAL_CAPACITY));
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,6 +64,9 @@ where
             }
         };
 
+        if src.len() > header.result_len - result.len() {
+            return Err(DeltaError::TooLong);
+        }
         result.extend_from_slice(src);
     }
 
-- 
2.43.0


From f6e20b7b8ceb6b3b0f948346cc2094e2ff47be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 14/22] fix: stop stripping digits and punctuation from names
 and emails

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..e745e61 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,7 +22,7 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-- 
2.43.0


From 8870843247cc2055cdcbbe9bef630c978e09f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 15/22] fix: keep names and emails which are not valid utf-8
 intact

---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index e745e61..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 23c7015a62a8c17cc02e3f136323caddc921f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 16/22] fix: make loose objects visible only once they are
 completely written

---
 src/object/database/loose.rs | 55 +++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..cb728bd 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -72,29 +74,54 @@ impl LooseObjectDatabase {
         let hex = id.to_hex();
         let (dir, file) = object_path_parts(&hex);
 
-        let mut path = self.path.join(dir);
-        match fs_err::create_dir(&path) {
+        let dir = self.path.join(dir);
+        match fs_err::create_dir(&dir) {
             Err(err) if err.kind() != io::ErrorKind::AlreadyExists => return Err(err.into()),
             _ => (),
         }
 
-        path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
-                let _ = set_file_mtime(path, FileTime::now());
-                return Ok(id);
+        let path = dir.join(file);
+        if path.exists() {
+            let _ = set_file_mtime(path, FileTime::now());
+            return Ok(id);
+        }
+
+        // Write to a temporary file first, so that an object is only visible under its id
+        // once it is complete.
+        let (file, temp_path) = create_temp_file(&dir)?;
+        let result = write_compressed(file, bytes).and_then(|()| fs_err::rename(&temp_path, path));
+        match result {
+            Ok(()) => Ok(id),
+            Err(err) => {
+                let _ = fs_err::remove_file(temp_path);
+                Err(err.into())
             }
-            Err(err) => return Err(err.into()),
-        };
+        }
+    }
+}
+
+fn create_temp_file(dir: &Path) -> io::Result<(fs_err::File, PathBuf)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let count = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let path = dir.join(format!("tmp_obj_{}_{}", process::id(), count));
 
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
-        Ok(id)
+        match OpenOptions::new().create_new(true).write(true).open(&path) {
+            Ok(file) => return Ok((fs_err::File::from_parts(file, path.clone()), path)),
+            // Left over from another process, try again with a different name.
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(err) => return Err(err),
+        }
     }
 }
 
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?.sync_all()
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From 25878b647af706c9d45034d5c83f8965754023ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 17/22] fix: reject reference names which point outside the
 repository

---
 src/reference/database.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..dd43e33 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,14 +1,14 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
 #[cfg(unix)]
 use std::os::unix::ffi::OsStrExt;
 
-use crate::reference::{Error, Reference};
+use crate::reference::{Error, ParseError, Reference};
 
 const REFS: &[u8] = b"refs";
 const HEADS: &[u8] = b"heads";
@@ -73,7 +73,13 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        // A name which isn't a plain relative path could refer to a file outside the repository.
+        if !name.components().all(|c| matches!(c, Component::Normal(_))) {
+            return Err(Error::InvalidReference(ParseError::InvalidReference));
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
-- 
2.43.0


From 14fc230a0699374e0c8dba06550ce550d10684d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 18/22] fix: report errors reading a reference directory
 instead of skipping entries

---
 src/reference/database.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index dd43e33..7388f09 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -106,12 +106,12 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
-                    Err(error) => vec![Err(Error::Io(error))],
+                .flat_map(|f| {
+                    match f.and_then(|f| f.file_type().map(|ft| (ft.is_dir(), f.path()))) {
+                        Ok((true, path)) => self.get_file_paths_from_dir(&path),
+                        Ok((false, path)) => vec![Ok(path)],
+                        Err(error) => vec![Err(Error::Io(error))],
+                    }
                 })
                 .collect(),
             Err(error) => vec![Err(Error::Io(error))],
-- 
2.43.0


From 71206cd9018158a3c0990134c2dcac0b3f26c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 19/22] fix: treat a missing reference directory as having no
 references

---
 src/reference/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 7388f09..855532c 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -114,6 +114,8 @@ impl ReferenceDatabase {
                     }
                 })
                 .collect(),
+            // A repository without any references of a kind need not have a directory for them.
+            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From 6f28154c39bfcf644817b92ef5403cfc1e381ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 20/22] fix: find loose objects when the pack directory is
 missing

---
 src/object/database/packed.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..f911ffa 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,14 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            // A repository without any packs need not have a directory for them.
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From edcd8d7becb308dbdec789f6f8104468259632ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 21/22] fix: look for new packs when an object is in neither
 known packs nor loose

---
 src/object/database.rs        | 4 ++--
 src/object/database/packed.rs | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..0b76169 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -58,7 +58,7 @@ impl ObjectDatabase {
     }
 
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
-        match self.packed.read_object(&ShortId::from(id)) {
+        match self.packed.read_object(&ShortId::from(id), false) {
             Ok(reader) => return Ok(reader),
             Err(ReadPackedError::NotFound) => (),
             Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
@@ -72,7 +72,7 @@ impl ObjectDatabase {
 
         // object may have just been packed, try again
         self.packed
-            .read_object(&ShortId::from(id))
+            .read_object(&ShortId::from(id), true)
             .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
     }
 
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index f911ffa..774c3b8 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -81,9 +81,12 @@ impl PackedObjectDatabase {
     pub(in crate::object::database) fn read_object(
         &self,
         short_id: &ShortId,
+        force_refresh: bool,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
+            Err(ReadPackedError::NotFound) if self.refresh(force_refresh)? => {
+                self.try_read_object(short_id)
+            }
             result => result,
         }
     }
@@ -123,12 +126,12 @@ impl PackedObjectDatabase {
         }
     }
 
-    fn refresh(&self) -> Result<bool, ReadPackedError> {
+    fn refresh(&self, force: bool) -> Result<bool, ReadPackedError> {
         // Keep the mutex locked while refreshing so we don't have multiple thread refreshing simultaneously.
         // This isn't necessary for correctness, but is just an optimization.
         let mut last_refresh_guard = self.last_refresh.lock().unwrap();
         match *last_refresh_guard {
-            Some(last_refresh) if last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
+            Some(last_refresh) if !force && last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
                 return Ok(false)
             }
             _ => (),
-- 
2.43.0


From ab565a8f53c1f46a19cff066c0c75a7d9cb40191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 22/22] fix: reject a direct reference that follows another
 word

---
 src/reference/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..ea01891 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -74,6 +74,7 @@ impl<R: Read> Parser<R> {
         if line.starts_with(SYMBOLIC_PREFIX) {
             line = &line[SYMBOLIC_PREFIX.len()..];
         }
+        let direct = line;
 
         let peel = match memchr(b' ', line) {
             Some(ch_pos) => {
@@ -86,7 +87,8 @@ impl<R: Read> Parser<R> {
 
         let target = match memchr(b'/', line) {
             Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+            // Without a target, the whole line has to be an id.
+            None => ReferenceTarget::Direct(Direct::from_bytes(&direct.trim_end())?),
         };
 
         Ok(target)
-- 
2.43.0

