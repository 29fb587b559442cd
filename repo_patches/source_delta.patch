From bdf3467510b0019d9a3f1117fc48694268cc4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 01/16] fix: decode frames that have no pixels

The encoder accepts frames with a width or height of 0, but reading them back
failed with "image truncated", because an empty buffer made fill_buffer consume
the whole frame and report that there was not enough data. The iterator also
ended early on frames with an empty buffer.
---
 src/reader/converter.rs | 4 ++++
 src/reader/mod.rs       | 9 +++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..d06899f 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,10 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        // there may be nothing to fill, e.g. when a frame has no pixels
+        if buf.is_empty() {
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..c51040b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -363,11 +363,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -496,7 +493,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 36c9eb283f7cab217585fb02ba3ebbb5f63bdd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 02/16] fix: accept a trailer directly after the global palette

A GIF without any blocks, such as the one written by Encoder::new() and
into_inner(), was rejected with UnexpectedEof.
---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..3f18fb8 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,8 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // can't consume the trailer yet (see `BlockEnd`)
+                    goto!(usize::from(b != Block::Trailer as u8), BlockStart(b), emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From 9a0586204ac1d01a7e7ae645d0c7864ab4b7e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:09 +0000
Subject: [PATCH 03/16] fix: look for the LZW end code also in data that is
 skipped

With check_lzw_end_code enabled, valid files were rejected when a frame was
skipped, or when the end code happened to be in a later sub-block than the
last pixel.
---
 src/reader/decoder.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 3f18fb8..7004229 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -742,18 +742,24 @@ impl StreamingDecoder {
                 debug_assert!(!self.skip_frame_decoding);
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                    let discard = matches!(write_into, OutputBuffer::None);
+                    // when the end code is required, it has to be found even if nobody wants the pixels
+                    if self.lzw_reader.has_ended() || (discard && !self.lzw_reader.check_for_end_code) {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
 
-                    let (mut consumed, bytes_len) = self.lzw_reader.decode_bytes(&buf[..n], write_into)?;
+                    let (mut consumed, bytes_len) = if discard {
+                        self.lzw_reader.decode_bytes(&buf[..n], &mut OutputBuffer::Slice(&mut [0; 256]))?
+                    } else {
+                        self.lzw_reader.decode_bytes(&buf[..n], write_into)?
+                    };
 
                     // skip if can't make progress (decode would fail if check_for_end_code was set)
                     if consumed == 0 && bytes_len == 0 {
                         consumed = n;
                     }
 
-                    let decoded = if let Some(bytes_len) = NonZeroUsize::new(bytes_len) {
+                    let decoded = if let (Some(bytes_len), false) = (NonZeroUsize::new(bytes_len), discard) {
                         Decoded::BytesDecoded(bytes_len)
                     } else {
                         Decoded::Nothing
@@ -763,10 +769,15 @@ impl StreamingDecoder {
                     // decode next sub-block
                     goto!(DecodeSubBlock(b as usize))
                 } else {
-                    let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
+                    let discard = matches!(write_into, OutputBuffer::None);
+                    let (_, bytes_len) = if discard && self.lzw_reader.check_for_end_code {
+                        self.lzw_reader.decode_bytes(&[], &mut OutputBuffer::Slice(&mut [0; 256]))?
+                    } else {
+                        self.lzw_reader.decode_bytes(&[], write_into)?
+                    };
 
                     if let Some(bytes_len) = NonZeroUsize::new(bytes_len) {
-                        goto!(0, DecodeSubBlock(0), emit Decoded::BytesDecoded(bytes_len))
+                        goto!(0, DecodeSubBlock(0), emit if discard { Decoded::Nothing } else { Decoded::BytesDecoded(bytes_len) })
                     } else {
                         goto!(0, FrameDecoded)
                     }
-- 
2.43.0


From 75d311846b91037bce9bda7bb0de96decf74e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:19 +0000
Subject: [PATCH 04/16] fix: keep all transparent pixels transparent in
 Frame::from_rgba

When fully-transparent pixels had different (invisible) colors, they got
separate palette entries, and all but one of them became opaque.
---
 src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..a716ae5 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -218,7 +218,8 @@ impl Frame<'static> {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
             } else {
-                transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
+                // All transparent pixels are the same, and have to share one palette entry
+                pix.copy_from_slice(transparent.get_or_insert([pix[0], pix[1], pix[2], pix[3]]));
             }
         }
 
-- 
2.43.0


From 9d09964c5812804e01660456170721fe22ea865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 05/16] fix: don't mistake unknown blocks for the previous
 extension

Data of an unknown block was appended to the data of the extension before it,
and interpreted according to that extension's label.
---
 src/reader/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 7004229..01ab084 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -644,6 +644,9 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // the data does not belong to the previous extension
+                            self.ext.data.clear();
+                            self.ext.id = AnyExtension(0);
                             goto!(ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
-- 
2.43.0


From e51726d268cfd68efd345eda9de78134982c910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 06/16] fix: recognize block terminator in blocks without data

The terminator of an extension or an image without any data was taken for the
length of an empty sub-block, and the following block was misinterpreted.
Encoder::write_raw_extension() and write_lzw_pre_encoded_frame() write such blocks.
---
 src/reader/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 01ab084..7004822 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -647,7 +647,7 @@ impl StreamingDecoder {
                             // the data does not belong to the previous extension
                             self.ext.data.clear();
                             self.ext.id = AnyExtension(0);
-                            goto!(ExtensionDataBlock(b as usize))
+                            goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
                         }
@@ -665,7 +665,8 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
-                goto!(ExtensionDataBlock(b as usize))
+                // zero length is already the terminator of the block
+                goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
             }
             ExtensionDataBlock(left) => {
                 if left > 0 {
@@ -723,10 +724,10 @@ impl StreamingDecoder {
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    goto!(usize::from(b != 0), DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(usize::from(b != 0), CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From d38fb6d9620fd09eb2b58c08f1584a60b6128bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 07/16] fix: apply memory limit to the size estimate of
 compressed frames

With skip_frame_decoding enabled, read_next_frame() reserved up to 1GB
regardless of the memory limit.
---
 src/reader/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index c51040b..068fdae 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -244,6 +244,7 @@ pub struct Decoder<R: Read> {
     pixel_converter: PixelConverter,
     bg_color: Option<u8>,
     repeat: Repeat,
+    memory_limit: MemoryLimit,
     current_frame: Frame<'static>,
     current_frame_data_type: FrameDataType,
 }
@@ -270,6 +271,7 @@ impl<R> Decoder<R> where R: Read {
                 at_eof: false,
             },
             bg_color: None,
+            memory_limit: options.memory_limit.clone(),
             pixel_converter: PixelConverter::new(options.color_output, options.memory_limit),
             repeat: Repeat::default(),
             current_frame: Frame::default(),
@@ -350,8 +352,12 @@ impl<R> Decoder<R> where R: Read {
                         Vec::new()
                     };
                     // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
-                        .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+                    let size_hint = usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4;
+                    // It's only a guess, so it being over the limit is not an error yet
+                    if self.memory_limit.check_size(size_hint).is_ok() {
+                        vec.try_reserve(size_hint)
+                            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+                    }
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
                 },
-- 
2.43.0


From c2492050167b8847559e22ad25d1b49aea805cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 08/16] fix: don't loop forever on data after the trailer

StreamingDecoder::update() never returned if it was called with more data
after it has emitted BlockStart(Block::Trailer).
---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 7004822..887260b 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -793,7 +793,8 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            // ignore extraneous data
+            Trailer => goto!(buf.len(), Trailer, emit Decoded::Nothing),
         }
     }
 
-- 
2.43.0


From 800cdd970ea4ed8c5c2e70565e9272a2d906b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 09/16] fix: don't drop image data that follows repeated clear
 codes

---
 src/reader/decoder.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 887260b..9a50c9b 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -294,20 +294,24 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
-
-        match decoded.status {
-            Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-            Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
-                    return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+        loop {
+            let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+
+            match decoded.status {
+                // Clear codes are progress, but neither need more input (if it's been buffered) nor give output
+                Ok(LzwStatus::Ok) if decoded.consumed_in == 0 && decoded.consumed_out == 0 => continue,
+                Ok(LzwStatus::Done | LzwStatus::Ok) => {},
+                Ok(LzwStatus::NoProgress) => {
+                    if self.check_for_end_code {
+                        return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+                    }
+                },
+                Err(err @ LzwError::InvalidCode) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
-            },
-            Err(err @ LzwError::InvalidCode) => {
-                return Err(io::Error::new(io::ErrorKind::InvalidData, err));
             }
+            return Ok((decoded.consumed_in, decoded.consumed_out));
         }
-        Ok((decoded.consumed_in, decoded.consumed_out))
     }
 }
 
-- 
2.43.0


From d74d9cc1f5988367e3bfe8cd70d12c0e0b618f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 10/16] fix: decode small frames in FrameDecoder

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 9a50c9b..ec44108 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -227,7 +227,8 @@ impl FrameDecoder {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
-                if bytes_written > 0 || bytes_read == 0 || data.is_empty() {
+                // there may be pixels left to decode even when all of the data has been read
+                if bytes_written > 0 || bytes_read == 0 {
                     return Ok(bytes_written);
                 }
             }
-- 
2.43.0


From 77e07e79ef318d3211ee41b9c83f1823020872b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 11/16] fix: don't report errors from buffered image data that
 is skipped

---
 src/reader/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index ec44108..cb966f3 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -781,6 +781,9 @@ impl StreamingDecoder {
                     let discard = matches!(write_into, OutputBuffer::None);
                     let (_, bytes_len) = if discard && self.lzw_reader.check_for_end_code {
                         self.lzw_reader.decode_bytes(&[], &mut OutputBuffer::Slice(&mut [0; 256]))?
+                    } else if discard {
+                        // data that isn't wanted isn't checked, even if the LZW decoder has buffered some of it
+                        (0, 0)
                     } else {
                         self.lzw_reader.decode_bytes(&[], write_into)?
                     };
-- 
2.43.0


From b5a5620f3e7ae47e02b4e40dcc9f21c0e781dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 12/16] fix: deliver the pixels that precede an invalid LZW
 code

---
 src/reader/decoder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index cb966f3..ecdec04 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -248,6 +248,8 @@ struct LzwReader {
     decoder: Option<LzwDecoder>,
     min_code_size: u8,
     check_for_end_code: bool,
+    /// Error found after the last decoded pixels
+    pending_error: Option<LzwError>,
 }
 
 impl LzwReader {
@@ -256,6 +258,7 @@ impl LzwReader {
             decoder: None,
             min_code_size: 0,
             check_for_end_code,
+            pending_error: None,
         }
     }
 
@@ -270,6 +273,7 @@ impl LzwReader {
 
     pub fn reset(&mut self, min_code_size: u8) -> Result<(), DecodingError> {
         Self::check_code_size(min_code_size)?;
+        self.pending_error = None;
 
         // The decoder can be reused if the code size stayed the same
         if self.min_code_size != min_code_size || self.decoder.is_none() {
@@ -289,6 +293,10 @@ impl LzwReader {
     pub fn decode_bytes(&mut self, lzw_data: &[u8], decode_buffer: &mut OutputBuffer<'_>) -> io::Result<(usize, usize)> {
         let decoder = self.decoder.as_mut().ok_or(io::ErrorKind::Unsupported)?;
 
+        if let Some(err) = self.pending_error.take() {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, err));
+        }
+
         let decode_buffer = match decode_buffer {
             OutputBuffer::Slice(buf) => &mut **buf,
             OutputBuffer::None => &mut [],
@@ -307,6 +315,10 @@ impl LzwReader {
                         return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
                     }
                 },
+                // The pixels before the invalid code may be all that's wanted
+                Err(err @ LzwError::InvalidCode) if decoded.consumed_out > 0 => {
+                    self.pending_error = Some(err);
+                },
                 Err(err @ LzwError::InvalidCode) => {
                     return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
-- 
2.43.0


From 25459eae3a3c447996b708a81b2e5ddb8eae68a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:09 +0000
Subject: [PATCH 13/16] fix: don't let skipped unknown blocks end the header

Extensions that follow, such as the loop count, still belong to it.
---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index ecdec04..cd96fbc 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -637,7 +637,9 @@ impl StreamingDecoder {
                 }
             }
             BlockStart(type_) => {
-                if !self.header_end_reached && type_ != Block::Extension as u8 {
+                // skipped blocks may be followed by extensions that belong to the header
+                let skip = self.allow_unknown_blocks && Block::from_u8(type_).is_none();
+                if !self.header_end_reached && type_ != Block::Extension as u8 && !skip {
                     self.header_end_reached = true;
                     return goto!(0, BlockStart(type_), emit Decoded::HeaderEnd);
                 }
-- 
2.43.0


From 1c30548f66dd08d5c48799197f2ffad903ac9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:58 +0000
Subject: [PATCH 14/16] fix: don't lose image data when a clear code is
 reported as no progress

The LZW decoder reports no progress for a clear code it had buffered, and also
for buffered pixels it outputs. Pixels behind such clear codes were dropped when
reading a frame in pieces, and the end code was reported as missing.
---
 src/reader/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index cd96fbc..b66ef6c 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -303,12 +303,20 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
+        let mut retried = false;
         loop {
             let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
 
             match decoded.status {
                 // Clear codes are progress, but neither need more input (if it's been buffered) nor give output
                 Ok(LzwStatus::Ok) if decoded.consumed_in == 0 && decoded.consumed_out == 0 => continue,
+                // After other codes they're reported as no progress, even if there is more data
+                Ok(LzwStatus::NoProgress) if decoded.consumed_in == 0 && decoded.consumed_out == 0 && !retried => {
+                    retried = true;
+                    continue;
+                },
+                // It's also reported for output of buffered pixels
+                Ok(LzwStatus::NoProgress) if decoded.consumed_out > 0 => {},
                 Ok(LzwStatus::Done | LzwStatus::Ok) => {},
                 Ok(LzwStatus::NoProgress) => {
                     if self.check_for_end_code {
-- 
2.43.0


From d57ff7f1b0e29a7ff6d65f47f454311081a9c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 15/16] fix: don't leave old pixels in the buffer for indices
 without a palette entry

---
 src/reader/converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index d06899f..ab7a46b 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -135,6 +135,9 @@ impl PixelConverter {
                                     } else {
                                         0xFF
                                     };
+                                } else {
+                                    // the buffer may hold old pixels
+                                    rgba.fill(0);
                                 }
                             }
                         },
-- 
2.43.0


From 31932262ba4d89956c491c66fa484fecfe09ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:35 +0000
Subject: [PATCH 16/16] fix: deliver pixels held back by the LZW decoder when
 the input ends

---
 src/reader/decoder.rs | 41 +++++++++++++++++++++++++++++++++--------
 src/reader/mod.rs     |  6 +++++-
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index b66ef6c..1573141 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -303,37 +303,53 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
+        let (mut consumed_in, mut consumed_out) = (0, 0);
         let mut retried = false;
         loop {
-            let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+            let decoded = decoder.decode_bytes(&lzw_data[consumed_in..], &mut decode_buffer[consumed_out..]);
+            let progress = decoded.consumed_in > 0 || decoded.consumed_out > 0;
+            consumed_in += decoded.consumed_in;
+            consumed_out += decoded.consumed_out;
 
             match decoded.status {
                 // Clear codes are progress, but neither need more input (if it's been buffered) nor give output
-                Ok(LzwStatus::Ok) if decoded.consumed_in == 0 && decoded.consumed_out == 0 => continue,
+                Ok(LzwStatus::Ok) if !progress => continue,
+                // They also interrupt decoding of what's been buffered, even if there's room for it
+                Ok(LzwStatus::Ok | LzwStatus::NoProgress) if progress && consumed_out < decode_buffer.len() => {
+                    retried = false;
+                    continue;
+                },
                 // After other codes they're reported as no progress, even if there is more data
-                Ok(LzwStatus::NoProgress) if decoded.consumed_in == 0 && decoded.consumed_out == 0 && !retried => {
+                Ok(LzwStatus::NoProgress) if !progress && !retried => {
                     retried = true;
                     continue;
                 },
-                // It's also reported for output of buffered pixels
-                Ok(LzwStatus::NoProgress) if decoded.consumed_out > 0 => {},
                 Ok(LzwStatus::Done | LzwStatus::Ok) => {},
                 Ok(LzwStatus::NoProgress) => {
-                    if self.check_for_end_code {
+                    if self.check_for_end_code && consumed_in == 0 && consumed_out == 0 {
                         return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
                     }
                 },
                 // The pixels before the invalid code may be all that's wanted
-                Err(err @ LzwError::InvalidCode) if decoded.consumed_out > 0 => {
+                Err(err @ LzwError::InvalidCode) if consumed_out > 0 => {
                     self.pending_error = Some(err);
                 },
                 Err(err @ LzwError::InvalidCode) => {
                     return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
             }
-            return Ok((decoded.consumed_in, decoded.consumed_out));
+            return Ok((consumed_in, consumed_out));
         }
     }
+
+    /// Decodes what is left of the data that has already been consumed
+    fn decode_buffered(&mut self, decode_buffer: &mut OutputBuffer<'_>) -> io::Result<usize> {
+        // it's not known yet if there is an end code
+        let check_for_end_code = mem::replace(&mut self.check_for_end_code, false);
+        let decoded = self.decode_bytes(&[], decode_buffer);
+        self.check_for_end_code = check_for_end_code;
+        Ok(decoded?.1)
+    }
 }
 
 /// GIF decoder which emits [low-level events](Decoded) for items in the GIF file
@@ -467,6 +483,15 @@ impl StreamingDecoder {
         Ok((len - buf.len(), Decoded::Nothing))
     }
 
+    /// Pixels that have not been written yet when there's no more input
+    pub(crate) fn decode_buffered(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Decoded, DecodingError> {
+        let bytes_len = match (&self.state, &write_into) {
+            (DecodeSubBlock(_), OutputBuffer::Slice(_)) => self.lzw_reader.decode_buffered(write_into)?,
+            _ => 0,
+        };
+        Ok(NonZeroUsize::new(bytes_len).map_or(Decoded::Nothing, Decoded::BytesDecoded))
+    }
+
     /// Returns the data of the last extension that has been decoded.
     #[must_use]
     pub fn last_ext(&self) -> (AnyExtension, &[u8], bool) {
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 068fdae..d4a1b76 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -207,7 +207,11 @@ impl<R: Read> ReadDecoder<R> {
             let (consumed, result) = {
                 let buf = self.reader.fill_buf()?;
                 if buf.is_empty() {
-                    return Err(io::ErrorKind::UnexpectedEof.into());
+                    // some pixels may have been held back when the output was full
+                    match self.decoder.decode_buffered(write_into)? {
+                        Decoded::Nothing => return Err(io::ErrorKind::UnexpectedEof.into()),
+                        result => return Ok(Some(result)),
+                    }
                 }
 
                 self.decoder.update(buf, write_into)?
-- 
2.43.0

