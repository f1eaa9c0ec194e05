From 579c2f819b94c68d6c3b84ebd47033192f862d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 01/15] fix: retry interrupted reads

An ErrorKind::Interrupted from the reader ended decoding, although
nothing was read and the operation only has to be repeated.
---
 src/reader/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..b19e019 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -205,7 +205,11 @@ impl<R: Read> ReadDecoder<R> {
     fn decode_next(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<Decoded>, DecodingError> {
         while !self.at_eof {
             let (consumed, result) = {
-                let buf = self.reader.fill_buf()?;
+                let buf = match self.reader.fill_buf() {
+                    Ok(buf) => buf,
+                    Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                    Err(err) => return Err(err.into()),
+                };
                 if buf.is_empty() {
                     return Err(io::ErrorKind::UnexpectedEof.into());
                 }
-- 
2.43.0


From 09b778e0c3cbd9f9dfd6060dd24cf012a90ea947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 02/15] fix: parse extensions and unknown blocks without
 sub-blocks

The terminator of an empty block was taken for a sub-block length, and
the following byte (the start of the next block) for the length of
another sub-block. The encoder writes such extensions when
write_raw_extension is given no data.
---
 src/reader/decoder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..e928285 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -643,6 +643,10 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            if b == 0 {
+                                // no sub-blocks, so this byte is the block terminator
+                                return goto!(0, ExtensionDataBlock(0));
+                            }
                             goto!(ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
@@ -661,7 +665,12 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
-                goto!(ExtensionDataBlock(b as usize))
+                if b == 0 {
+                    // no sub-blocks, so this byte is the block terminator
+                    goto!(0, ExtensionDataBlock(0))
+                } else {
+                    goto!(ExtensionDataBlock(b as usize))
+                }
             }
             ExtensionDataBlock(left) => {
                 if left > 0 {
-- 
2.43.0


From 85d6414d0fb77a23b1437201216062e2ef47e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 03/15] fix: don't treat an unknown block as the preceding
 extension

With allow_unknown_blocks the data of the unknown block was appended to
the previous extension and interpreted by its label, so an unknown block
after a graphic control extension failed with "control extension has
wrong length", and one after a looping extension repeated it.
---
 src/reader/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index e928285..57c73c1 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -643,6 +643,10 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // don't mistake it for the extension that came before
+                            self.ext.id = AnyExtension(0);
+                            self.ext.data.clear();
+                            self.ext.data.push(b);
                             if b == 0 {
                                 // no sub-blocks, so this byte is the block terminator
                                 return goto!(0, ExtensionDataBlock(0));
-- 
2.43.0


From ff27e9874f64c113a047009ad7379966c97fe16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 04/15] fix: accept a trailer right after the header

The trailer byte was consumed before its block start was processed, so
a GIF without frames needed one more byte after its end to be read,
and failed with UnexpectedEof otherwise.
---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 57c73c1..90135fc 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,9 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // the trailer can't be consumed yet, see BlockEnd
+                    let n = usize::from(b != Block::Trailer as u8);
+                    goto!(n, BlockStart(b), emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From e5f0dc7f7c77363986dc543b18ab79a5626fd6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 05/15] fix: StreamingDecoder::update hang after the trailer

The final state consumed nothing and emitted nothing, so update never
returned when called with more data after the end of the image.
---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 90135fc..3ef6652 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -792,7 +792,8 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            // data after the trailer is not part of the image
+            Trailer => goto!(buf.len(), Trailer, emit Decoded::Nothing),
         }
     }
 
-- 
2.43.0


From 91e1f7bc79e6b67d40fdbc709b19a8dbe6c7969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 06/15] fix: decode frames that have no pixels

A frame with zero width or height can be encoded, but decoding it failed
with "image truncated" or "odd-sized buffer". When it was interlaced the
iterator returned None in the middle of the image.
---
 src/reader/converter.rs | 4 ++++
 src/reader/mod.rs       | 9 +++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..59fcc39 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,10 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        if buf.is_empty() {
+            // nothing to fill, e.g. the frame has no pixels
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index b19e019..f937497 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -367,11 +367,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -500,7 +497,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 61110f08520a23c94e569e506d4f54ade363d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 07/15] fix: respect the memory limit when reserving for
 compressed frames

With skip_frame_decoding, read_next_frame reserved a quarter of the
claimed frame size, up to 1 GiB, regardless of the memory limit.
---
 src/reader/converter.rs | 4 ++++
 src/reader/mod.rs       | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index 59fcc39..2069341 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -43,6 +43,10 @@ impl PixelConverter {
         }
     }
 
+    pub(crate) const fn memory_limit(&self) -> &MemoryLimit {
+        &self.memory_limit
+    }
+
     pub(crate) fn check_buffer_size(&self, frame: &Frame<'_>) -> Result<usize, DecodingError> {
         let pixel_bytes = self.memory_limit
             .buffer_size(self.color_output, frame.width, frame.height)
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index f937497..b08eb3f 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -353,8 +353,12 @@ impl<R> Decoder<R> where R: Read {
                     } else {
                         Vec::new()
                     };
-                    // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                    // Guesstimate 2bpp, but the size is only a claim and may be beyond the limit
+                    let guess = self.pixel_converter.memory_limit()
+                        .buffer_size(ColorOutput::Indexed, self.current_frame.width, self.current_frame.height)
+                        .unwrap_or(0) / 4;
+                    // at least one byte for the code size
+                    vec.try_reserve(1 + guess)
                         .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
-- 
2.43.0


From 5ed45b5bba813a6884c5ee09ce03c8f91028a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 08/15] fix: pixels lost after clear codes

A clear code that is already in the LZW decoder's bit buffer is handled
without consuming input and without output. This was taken for the end
of the data: the rest of the sub-block was skipped, or the frame was
reported as truncated, depending on how the data was split.
---
 src/reader/decoder.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 3ef6652..b5cc853 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -294,20 +294,32 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
-
-        match decoded.status {
-            Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-            Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
-                    return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+        // Clear codes have no output, and the decoder may already have them in its bit buffer.
+        // Then a step has neither input nor output, but isn't stuck until it gets nowhere twice.
+        let mut can_retry = true;
+        loop {
+            let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+            let moved = decoded.consumed_in > 0 || decoded.consumed_out > 0;
+
+            match decoded.status {
+                Ok(LzwStatus::Done) => {},
+                Ok(LzwStatus::Ok | LzwStatus::NoProgress) if moved => {},
+                Ok(LzwStatus::Ok) => continue,
+                Ok(LzwStatus::NoProgress) => {
+                    if can_retry {
+                        can_retry = false;
+                        continue;
+                    }
+                    if self.check_for_end_code {
+                        return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
+                    }
+                },
+                Err(err @ LzwError::InvalidCode) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, err));
                 }
-            },
-            Err(err @ LzwError::InvalidCode) => {
-                return Err(io::Error::new(io::ErrorKind::InvalidData, err));
             }
+            return Ok((decoded.consumed_in, decoded.consumed_out));
         }
-        Ok((decoded.consumed_in, decoded.consumed_out))
     }
 }
 
-- 
2.43.0


From aef30ea9d4d576d781dd7f65d73689786be82240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 09/15] fix: FrameDecoder fails on small frames

When all of the data fits in the LZW decoder's bit buffer, the first
step only consumes it. The decoding has to go on even though there is
no data left to pass.
---
 src/reader/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index b5cc853..7fc2fcf 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -227,7 +227,7 @@ impl FrameDecoder {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
-                if bytes_written > 0 || bytes_read == 0 || data.is_empty() {
+                if bytes_written > 0 || bytes_read == 0 {
                     return Ok(bytes_written);
                 }
             }
-- 
2.43.0


From aea3854c69c08e014309bb5be5ceff807ebb45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 10/15] fix: spurious "no end code in lzw stream"

With check_lzw_end_code, compressed data that no output was requested for
was dropped without looking for the end code in it. Frames that are
skipped, or have their end code in a later chunk of data than their last
pixel, were then reported as having no end code.
---
 src/reader/decoder.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 7fc2fcf..2c1af89 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -288,8 +288,11 @@ impl LzwReader {
     pub fn decode_bytes(&mut self, lzw_data: &[u8], decode_buffer: &mut OutputBuffer<'_>) -> io::Result<(usize, usize)> {
         let decoder = self.decoder.as_mut().ok_or(io::ErrorKind::Unsupported)?;
 
+        let mut scratch = [0; 256];
         let decode_buffer = match decode_buffer {
             OutputBuffer::Slice(buf) => &mut **buf,
+            // the end code has to be found even if nobody needs the pixels
+            OutputBuffer::None if self.check_for_end_code => &mut scratch[..],
             OutputBuffer::None => &mut [],
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
@@ -768,7 +771,8 @@ impl StreamingDecoder {
                 debug_assert!(!self.skip_frame_decoding);
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                    let discard = matches!(write_into, OutputBuffer::None);
+                    if self.lzw_reader.has_ended() || (discard && !self.lzw_reader.check_for_end_code) {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
 
@@ -779,10 +783,9 @@ impl StreamingDecoder {
                         consumed = n;
                     }
 
-                    let decoded = if let Some(bytes_len) = NonZeroUsize::new(bytes_len) {
-                        Decoded::BytesDecoded(bytes_len)
-                    } else {
-                        Decoded::Nothing
+                    let decoded = match NonZeroUsize::new(bytes_len) {
+                        Some(bytes_len) if !discard => Decoded::BytesDecoded(bytes_len),
+                        _ => Decoded::Nothing,
                     };
                     goto!(consumed, DecodeSubBlock(left - consumed), emit decoded)
                 } else if b != 0 {
@@ -791,10 +794,10 @@ impl StreamingDecoder {
                 } else {
                     let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
 
-                    if let Some(bytes_len) = NonZeroUsize::new(bytes_len) {
-                        goto!(0, DecodeSubBlock(0), emit Decoded::BytesDecoded(bytes_len))
-                    } else {
-                        goto!(0, FrameDecoded)
+                    match NonZeroUsize::new(bytes_len) {
+                        Some(_) if matches!(write_into, OutputBuffer::None) => goto!(0, DecodeSubBlock(0)),
+                        Some(bytes_len) => goto!(0, DecodeSubBlock(0), emit Decoded::BytesDecoded(bytes_len)),
+                        None => goto!(0, FrameDecoded),
                     }
                 }
             }
-- 
2.43.0


From a359b755c86229c5522dc1ffe51330b5d1e48837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 11/15] fix: FrameDecoder ignores check_lzw_end_code

It stopped at the last pixel, and never looked for the end code that
should follow it.
---
 src/reader/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 2c1af89..721dd2a 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -223,7 +223,7 @@ impl FrameDecoder {
         let (&min_code_size, mut data) = frame.buffer.split_first().unwrap_or((&2, &[]));
         self.lzw_reader.reset(min_code_size)?;
         let lzw_reader = &mut self.lzw_reader;
-        self.pixel_converter.read_into_buffer(frame, buf, &mut move |out| {
+        self.pixel_converter.read_into_buffer(frame, buf, &mut |out| {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
@@ -232,6 +232,11 @@ impl FrameDecoder {
                 }
             }
         })?;
+        while lzw_reader.check_for_end_code && !lzw_reader.has_ended() {
+            // fails if there's no end code in the rest of the data
+            let (bytes_read, _) = lzw_reader.decode_bytes(data, &mut OutputBuffer::None)?;
+            data = data.get(bytes_read..).unwrap_or_default();
+        }
         Ok(())
     }
 
-- 
2.43.0


From 04ad3e86219cec94e78fe6357b908eba9f82073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 12/15] fix: don't write anything for rejected images

A frame that was rejected because of its palette left its graphic control
extension in the output, where it applied to the next frame. An encoder
that couldn't be created because of its palette still wrote a trailer.
---
 src/encoder.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 1933478..e345464 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -134,6 +134,8 @@ impl<W: Write> Encoder<W> {
     /// `global_palette` gives the global color palette in the format `[r, g, b, ...]`,
     /// if no global palette shall be used an empty slice may be supplied.
     pub fn new(w: W, width: u16, height: u16, global_palette: &[u8]) -> Result<Self, EncodingError> {
+        // Dropping an encoder writes the trailer, so don't make one for an invalid palette
+        Self::check_color_table(global_palette)?;
         Self {
             w: Some(w),
             global_palette: false,
@@ -176,12 +178,6 @@ impl<W: Write> Encoder<W> {
     }
 
     fn write_frame_header(&mut self, frame: &Frame<'_>) -> Result<(), EncodingError> {
-        self.write_extension(ExtensionData::new_control_ext(
-            frame.delay,
-            frame.dispose,
-            frame.needs_user_input,
-            frame.transparent,
-        ))?;
         let mut flags = 0;
         if frame.interlaced {
             flags |= 0b0100_0000;
@@ -196,6 +192,12 @@ impl<W: Write> Encoder<W> {
             None if self.global_palette => None,
             _ => return Err(EncodingError::from(EncodingFormatError::MissingColorPalette)),
         };
+        self.write_extension(ExtensionData::new_control_ext(
+            frame.delay,
+            frame.dispose,
+            frame.needs_user_input,
+            frame.transparent,
+        ))?;
         let mut tmp = tmp_buf::<10>();
         tmp.write_le(Block::Image as u8)?;
         tmp.write_le(frame.left)?;
-- 
2.43.0


From b34ae847a055753fefb34a70e103e051e7afc11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 13/15] fix: transparent pixels of different colors became
 opaque

Frame::from_rgba made only the color of the last transparent pixel
transparent. All other pixels with an alpha of 0 became opaque.
---
 src/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..643927a 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -213,12 +213,14 @@ impl Frame<'static> {
     pub fn from_rgba_speed(width: u16, height: u16, pixels: &mut [u8], speed: i32) -> Self {
         assert_eq!(width as usize * height as usize * 4, pixels.len(), "Too much or too little pixel data for the given width and height to create a GIF Frame");
         assert!(speed >= 1 && speed <= 30, "speed needs to be in the range [1, 30]");
-        let mut transparent = None;
+        let mut transparent: Option<[u8; 4]> = None;
         for pix in pixels.chunks_exact_mut(4) {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
             } else {
-                transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
+                // There's one transparent index, so the invisible color must be the same everywhere
+                let color = transparent.get_or_insert([pix[0], pix[1], pix[2], 0]);
+                pix.copy_from_slice(color);
             }
         }
 
-- 
2.43.0


From 210a5a4018c2c3a4b9ae9c004c146be4348620bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 14/15] fix: image data without sub-blocks was misparsed

---
 src/reader/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 721dd2a..7051d7f 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -751,13 +751,15 @@ impl StreamingDecoder {
                 }
             }
             LzwInit(min_code_size) => {
+                // if there are no sub-blocks, this byte is the block terminator
+                let n = usize::from(b != 0);
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    goto!(n, DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(n, CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From fee291453587c56aae3cd25e6399e6119e1608af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 15/15] fix: skipped unknown block hid the loop count

An unknown block that is allowed ended the header, so a looping
extension between it and the first frame was ignored.
---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 7051d7f..60e9f6c 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -641,7 +641,9 @@ impl StreamingDecoder {
                 }
             }
             BlockStart(type_) => {
-                if !self.header_end_reached && type_ != Block::Extension as u8 {
+                // skipped unknown blocks don't end the header, because extensions may follow
+                let is_skipped = self.allow_unknown_blocks && Block::from_u8(type_).is_none();
+                if !self.header_end_reached && type_ != Block::Extension as u8 && !is_skipped {
                     self.header_end_reached = true;
                     return goto!(0, BlockStart(type_), emit Decoded::HeaderEnd);
                 }
-- 
2.43.0

