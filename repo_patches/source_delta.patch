From e5691d879a90e1ebbe378f8864aa0553c3475ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 01/26] fix: accept first chunks of fewer than three frames and
 empty chunks

The first chunk of a recording was indexed as if it had at least three frames
per channel, so an empty, one- or two-frame first chunk panicked.
---
 src/codec/adhoc.rs       | 16 ++++++++++++----
 src/codec/adhoc/frame.rs | 16 ++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..399e2f0 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -218,6 +218,11 @@ impl AdhocCodec {
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
+        // nothing to store, a frame without samples can't initialize the decoder
+        if num_chunks == 0 {
+            return;
+        }
+
         //controls the 'strength'/'influence' of dithering
         const DITHER_AMPLITUDE: f32 = 0.001;
 
@@ -396,10 +401,13 @@ impl Streamable for AdhocCodec {
 
                     //make sure stack history from the header is transferred to state
                     // 0..3 because sample history is supposed to have 3 samples
-                    for k in 0..3 {
-                        channel_state_list[offset]
-                            .sample_history_mut()
-                            .push(header.stack_history[k]);
+                    // the first frame starts without history
+                    if !header.is_init {
+                        for k in 0..3 {
+                            channel_state_list[offset]
+                                .sample_history_mut()
+                                .push(header.stack_history[k]);
+                        }
                     }
 
                     //make sure buffers are clear
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..54a431d 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -186,6 +186,7 @@ impl FrameCodec {
 
     pub fn init(&mut self) {
         self.state = CodecState::Init;
+        self.sample_history = CircularStack::new();
         self.buffered_channel.clear();
     }
 
@@ -205,16 +206,19 @@ impl FrameCodec {
                 // save bit cursor before modifying stream
                 let bit_cursor = stream.bit_cursor();
 
-                // write first three samples into the stream
+                // write first three samples (or all of a shorter frame) into the stream
                 // and also record then in the history queue
-                for k in 0..3 {
+                let num_samples_pre_written = pcm.len().min(3);
+                for k in 0..num_samples_pre_written {
                     let samp = pcm[k];
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let pcm_remaining = &pcm[num_samples_pre_written..];
+                let divisor_exp =
+                    Self::compute_optimal_divisor_exponent(sample_history, pcm_remaining);
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +233,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm_remaining.iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -303,7 +307,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
@@ -316,7 +320,7 @@ impl FrameCodec {
                     }
                     let mut samples_read = num_samples_pre_read as usize;
                     //entropy decode
-                    for _ in 3..size {
+                    for _ in num_samples_pre_read..size {
                         let entropy = stream.read_compressed(exponent as i16);
                         parabola.f = [
                             normalize_sample(sample_history.prev(3)),
-- 
2.43.0


From 3aa90d6a73cebbe50b816fdad1b4c4702b6a6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 02/26] fix: store chunks of more than 65535 frames completely

The frame size was truncated to 16 bits, so everything after such a chunk was lost
or decoded as noise.
---
 src/codec/adhoc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 399e2f0..cb1f105 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -324,7 +324,11 @@ impl Streamable for AdhocCodec {
     }
 
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
-        self.encode(samples);
+        // frame headers store the size of a frame in 16 bits
+        let num_channels = self.info().channels();
+        for block in samples.chunks(u16::MAX as usize * num_channels) {
+            self.encode(block);
+        }
 
         Some(samples.len())
     }
-- 
2.43.0


From 976eed5b17f9315cb7827c089e0d58263af7c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 03/26] fix: code prediction residuals modulo 2^16

Residuals beyond the 16-bit range were clamped, which the decoder cannot undo: every
later sample of the recording drifted away.  Exponent 15 overflowed as well.
---
 src/codec/adhoc/frame.rs     | 22 +++++++---------------
 src/collections/bitstream.rs | 23 ++++++++++++++---------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 54a431d..488ebee 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -244,9 +244,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    // the decoder adds the residual modulo 2^16 as well
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -281,9 +280,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    // the decoder adds the residual modulo 2^16 as well
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -330,10 +328,7 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -357,10 +352,7 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -390,7 +382,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..9b67e48 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -282,8 +282,9 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        let magnitude = entropy.unsigned_abs() as u32;
+        let mut quotient = magnitude >> exponent;
+        let remainder = magnitude & ((1 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -321,10 +322,9 @@ impl BitStream {
         //write sign bit
         let sign_bit = self.read_bit() as i16;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0u32;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -334,7 +334,7 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -345,12 +345,17 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient = quotient.wrapping_add(zero_bit_pos as u32);
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as u32;
+        // residuals are 16 bits wide, a damaged stream may hold anything
+        let unsigned_val = (quotient << exponent).wrapping_add(remainder) as i16;
+        if sign_bit == 1 {
+            unsigned_val.wrapping_neg()
+        } else {
+            unsigned_val
+        }
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From db8b84f28b334463aae697bc76a214fd504cd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 04/26] fix: forget the previous recording when a codec is
 reused

Bits of the old recording were merged into the new one at every 128-bit boundary, and
the headers of a longer old recording were still played after the new one.
---
 src/codec/adhoc/frame.rs     | 5 +++++
 src/collections/bitstream.rs | 6 ++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 488ebee..1dcf3ea 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -92,6 +92,11 @@ impl FrameHeaders {
             stack_history,
         } = header;
 
+        // a push after a rewind starts a new recording, drop the headers of the previous one
+        if self.header_cursor == 0 {
+            *self = Self::new();
+        }
+
         let header_cursor = self.header_cursor as usize;
         let is_init = is_init as u64;
 
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 9b67e48..c5a439c 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,10 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //overwrite whatever an earlier recording left in this chunk
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From 0960f1c6496eedd6520f17179de819a246638482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 05/26] fix: play on after a run of empty frames

Decoding gave up for good after ten empty frames although audio followed, old
recordings with empty chunks ended early.
---
 src/codec/adhoc.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index cb1f105..3ad81c9 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -271,16 +271,17 @@ impl AdhocCodec {
         };
 
         let mut buffer_audio = |channel_list: &mut Vec<FrameCodec>| {
-            let mut attempts = 0;
-            //decode and load buffers if empty
-            while attempts < MAX_DECODE_ATTEMPTS && is_buffers_empty(channel_list) {
+            let mut more_frames = true;
+            //decode and load buffers if empty, frames may be empty too
+            while more_frames && is_buffers_empty(channel_list) {
                 //decode more data
                 for channel_idx in 0..num_channels {
-                    channel_list[channel_idx].decode_frame(stream, block_info);
+                    more_frames &= channel_list[channel_idx]
+                        .decode_frame(stream, block_info)
+                        .is_some();
                 }
-                attempts += 1;
             }
-            attempts
+            !is_buffers_empty(channel_list)
         };
 
         // number of samples that can be written has to number a multiple of `num_channels`
@@ -288,7 +289,7 @@ impl AdhocCodec {
         let mut pcm_out_cursor = 0;
 
         while pcm_out_cursor < legal_output_len {
-            if buffer_audio(channel_list) >= MAX_DECODE_ATTEMPTS {
+            if !buffer_audio(channel_list) {
                 break;
             }
 
-- 
2.43.0


From 67cb0b4d97e1a03dd0334c342f4beea001b37e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 06/26] fix: leave the undelivered part of the decode buffer
 alone

The whole buffer was scaled, also the samples that were not written by the call.
---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 3ad81c9..2659d51 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -306,7 +306,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From 5537a10db65b062af1044f26e52ec527fd1894c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 07/26] fix: report the number of samples that were really
 encoded

AdhocCodec::encode counted a dropped partial frame as encoded, WavCodec does not.
---
 src/codec/adhoc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 2659d51..0499040 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -331,7 +331,8 @@ impl Streamable for AdhocCodec {
             self.encode(block);
         }
 
-        Some(samples.len())
+        // a partial frame at the end isn't encoded
+        Some(samples.len() / num_channels * num_channels)
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From 46dccf3dde5e7067889b3cabc76c941d27890ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 08/26] fix: seek past the end of a recording without panicking

Seeking an AdhocCodec beyond its last frame, or at all when it is empty, failed an
expect(). The offset is computed in integers, f32 is off by seconds in long recordings.
---
 src/codec/adhoc.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0499040..7bb6a9b 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -343,8 +343,6 @@ impl Streamable for AdhocCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let info = self.stream.info().expect("info not initalized");
         let channels = info.channels as u64;
-        let frequency_in_millis = info.sample_rate as f32 / 1000.0;
-
         self.init();
 
         if let SeekFrom::Start(0) = dt{
@@ -361,8 +359,9 @@ impl Streamable for AdhocCodec {
 
         match dt {
             SeekFrom::Start(dt) => {
-                let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset = info.sample_rate as u128 * dt as u128 / 1000;
+                let offset_in_blocks =
+                    u64::try_from(offset * channels as u128).unwrap_or(u64::MAX);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
@@ -386,6 +385,12 @@ impl Streamable for AdhocCodec {
                     header_block_index += 1;
                 }
 
+                //there is nothing to play at or past the end
+                if header_block_index >= header_block_len {
+                    frame_header_list.set_cursor(frame_header_list.len() as u32);
+                    return;
+                }
+
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
                 let start_header = frame_header_list
-- 
2.43.0


From b3f1d4bae361a6423d52a6c807491ae4891dd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 09/26] fix: count vector lengths in full in
 filesize_upperbound

The bound was smaller than the file: bincode stores the length of each vector as u64.
---
 src/codec/adhoc.rs       | 6 ++++--
 src/codec/adhoc/frame.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 7bb6a9b..1b72d68 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -104,10 +104,12 @@ impl AdhocCodec {
                 compression_level_bits 
         */
         let audio_stream_header =         
-            //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            //number of bits AudioStream need to store info, it's an Option so there is a tag
+            mem::size_of::<StreamInfo>() as u64 * 8 + 8;
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
+          //length of the stream
+          64+
           //streams internal cursor + capacity 
           128*2 ;
 
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1dcf3ea..f35629b 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -44,8 +44,8 @@ impl FrameHeaders {
         let len = self.len() as u64;
 
         //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //written out, the length value is an u64
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From e8ddeb1c5da2eb62f8bf60440a09938b1a4465db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 10/26] fix: don't grow the bitstream while reading it

Reading past the end allocated a chunk per read, so playing a damaged file took memory
without bound and a recording grew by being played.
---
 src/collections/bitstream.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index c5a439c..dc4ae21 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -149,9 +149,6 @@ impl BitStream {
         let nxt_chunk_idx = cur_chunk_idx + 1;
         let chunk_bit_idx = self.chunk_bit_index();
 
-        self.allocate_if_needed(cur_chunk_idx);
-        self.allocate_if_needed(nxt_chunk_idx);
-
         // return 0 if oob
         if cur_chunk_idx >= self.binary.len() {
             return 0;
@@ -160,7 +157,9 @@ impl BitStream {
         bits |= self.binary[cur_chunk_idx] >> chunk_bit_idx;
         let remaining_bits = 128 - chunk_bit_idx;
         if remaining_bits < bits_to_be_read {
-            bits |= self.binary[nxt_chunk_idx] << remaining_bits
+            // bits past the end of the stream are 0
+            let nxt_chunk = self.binary.get(nxt_chunk_idx).copied().unwrap_or(0);
+            bits |= nxt_chunk << remaining_bits
         }
 
         bits & mask
-- 
2.43.0


From 4b81a74262c826dfe62bab475c216af6691206c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 11/26] fix: reject damaged .adhoc files instead of panicking
 on them

A compression level over 31, no or billions of channels or header lists of different
lengths made load, decode or seek panic or exhaust the memory.
---
 src/codec/adhoc.rs       |  8 +++++++-
 src/codec/adhoc/frame.rs | 13 +++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 1b72d68..a59a057 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -196,8 +196,14 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                if slim.compression_level > 10
+                    || !(1..=u16::MAX as u32).contains(&info.channels)
+                    || !slim.frame_header_list.is_consistent(info.channels())
+                {
+                    return None;
+                }
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index f35629b..7269182 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -145,6 +145,19 @@ impl FrameHeaders {
     pub fn reset(&mut self) {
         self.header_cursor = 0;
     }
+
+    /// # Description
+    /// checks that every list describes the same number of frames and that there is a frame
+    /// for each channel, anything else comes from a damaged file
+    pub fn is_consistent(&self, channels: usize) -> bool {
+        let len = self.len();
+        self.is_init_frame_list.len() == len
+            && self.is_init_frame_list.capacity() >= len
+            && self.frame_size_list.len() == len
+            && self.bit_cursor_list.len() == len
+            && self.stack_history_list.len() == len
+            && len % channels == 0
+    }
 }
 
 impl Iterator for FrameHeaders {
-- 
2.43.0


From a35b8d0039f6b9071df22b6ca8ac8ac05679b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 12/26] fix: round samples when quantizing them

normalize_sample multiplies by a rounded 1/32767, so truncating the result lost one step:
16-bit audio came back changed from a wav file and from level 0.
---
 src/codec.rs             | 6 ++++++
 src/codec/adhoc/frame.rs | 8 ++++----
 src/codec/wav.rs         | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index fcf0ae4..87306eb 100755
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -22,10 +22,16 @@ where
     i32::from(samp) as f32 * NORMALIZE_FACTOR
 }
 
+/// used by the predictor, the encoder and the decoder have to agree on it
 fn truncate_sample(samp: f32) -> i16 {
     (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)) as i16
 }
 
+/// used on samples, inverts `normalize_sample(..)`
+fn quantize_sample(samp: f32) -> i16 {
+    (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)).round() as i16
+}
+
 #[derive(Copy, Clone, Default, Serialize, Deserialize)]
 /// A POD that contains basic information about an audio signal
 /// ## Comments
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 7269182..0c05845 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -229,7 +229,7 @@ impl FrameCodec {
                 let num_samples_pre_written = pcm.len().min(3);
                 for k in 0..num_samples_pre_written {
                     let samp = pcm[k];
-                    let truncated = truncate_sample(samp);
+                    let truncated = quantize_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
@@ -252,7 +252,7 @@ impl FrameCodec {
 
                 //entropy encode
                 for &sample in pcm_remaining.iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -288,7 +288,7 @@ impl FrameCodec {
                 });
 
                 for &sample in pcm[..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -392,7 +392,7 @@ impl FrameCodec {
         let mut parabola = FixedParabola::new();
         let mut sample_history = sample_history_ref.clone();
         for &sample in remaining_samples.iter() {
-            let current = truncate_sample(sample);
+            let current = quantize_sample(sample);
             parabola.f = [
                 normalize_sample(sample_history.prev(3)),
                 normalize_sample(sample_history.prev(2)),
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..55fcc20 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -5,7 +5,7 @@ use std::{
     slice, str,
 };
 
-use super::{normalize_sample, truncate_sample, StreamInfo, Streamable};
+use super::{normalize_sample, quantize_sample, StreamInfo, Streamable};
 
 #[derive(Debug)]
 #[repr(C, align(1))]
@@ -268,7 +268,7 @@ impl Streamable for WavCodec {
         let num_channels = self.info.channels();
         let valid_len = (samples.len() / num_channels) * num_channels;
         for &samp in &samples[0..valid_len] {
-            let sample_i16 = truncate_sample(samp);
+            let sample_i16 = quantize_sample(samp);
             self.write_sample(sample_i16);
         }
         Some(valid_len)
-- 
2.43.0


From f92658f6b8e7d0e31914725542624c9bbe20463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 13/26] fix: report success only when the whole file has been
 written

A short write of the WAV header was ignored, and errors of a buffering writer that
show up when it is flushed were never seen.
---
 src/codec/adhoc.rs | 5 +++--
 src/codec/wav.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index a59a057..4800211 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -162,7 +162,7 @@ impl AdhocCodec {
     }
 
 
-    pub fn save_to<Resource>(&self, res: Resource) -> Option<()>
+    pub fn save_to<Resource>(&self, mut res: Resource) -> Option<()>
     where
         Resource: Write,
     {
@@ -179,7 +179,8 @@ impl AdhocCodec {
             frame_header_list: &self.frame_header_list,
         };
 
-        bincode::serialize_into(res, &slim).ok()
+        bincode::serialize_into(&mut res, &slim).ok()?;
+        res.flush().ok()
     }
 
     pub fn load<Resource>(res: Resource) -> Option<Self>
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 55fcc20..5f3195c 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -124,10 +124,11 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
-            .map_err(|_| "failed to write pcm data")
+            .map_err(|_| "failed to write pcm data")?;
+        dst.flush().map_err(|_| "failed to flush pcm data")
     }
 
     /// parses and loads wav file
-- 
2.43.0


From cc76ccced79a54b9f7c715c8931d226915c87e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 14/26] fix: save WAV files with high sample rates and many
 channels

The byte rate was computed in i32 times the number of bits, which overflowed for rates
that fit the header.
---
 src/codec/wav.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5f3195c..ef3807b 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -119,8 +119,8 @@ impl WavCodec {
         header.audio_format = 1;
         header.num_channels = self.info.channels as i16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        header.bytes_per_sec = self.info.sample_rate.wrapping_mul(self.info.channels * 2) as i32;
+        header.block_align = (self.info.channels * 2) as i16;
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-- 
2.43.0


From ccc3d1ca40e94cc1ed92d0e15209f8b587de4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 15/26] fix: load the audio of a WAV file's data chunk, and
 nothing else

Chunks behind the data were played as noise, files below 256 bytes and "fmt " behind
another chunk were not accepted, "data" inside another chunk was taken for the data
chunk, and damaged headers made load or decode panic or deliver partial frames.
---
 src/codec/wav.rs | 89 ++++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index ef3807b..baaf991 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -136,46 +136,36 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
-
+        //recordings can be shorter than the region that is searched for chunks
+        let mut header_binary = Vec::with_capacity(256);
         wav_res
-            .read_exact(&mut header_binary)
+            .by_ref()
+            .take(256)
+            .read_to_end(&mut header_binary)
             .map_err(|_| "failed to read header bytes")?;
 
-        let mut header_slice = &header_binary[..];
         let mut header = RawWavHeader::default();
 
-        // println!("buffer size ={}", wav_binary.len());
-
-        let (data_start, _) = header_binary
-            .windows(4)
-            .enumerate()
-            .find(|(_, window)| {
-                let number = [b'd', b'a', b't', b'a'];
-                window == &number
+        let data_start = Self::find_chunk(&header_binary, b"data")
+            .or_else(|| {
+                //the chunk list is damaged, so look everywhere
+                let position = header_binary.windows(4).position(|w| w == b"data")?;
+                Some(position + 8)
             })
             .ok_or("data region not found")?;
 
-        header_slice
-            .clone()
-            .read(header.as_bytes_mut())
-            .map_err(|_| "header failed to read")?;
-
-        header
-            .data_header
-            .iter_mut()
-            .zip(header_slice[data_start..data_start + 4].iter())
-            .for_each(|(data_header_byte, &b)| {
-                *data_header_byte = b;
-            });
-
-        header_slice = &header_slice[data_start + 4..];
-        header.file_size_data = u32::from_le_bytes([
-            header_slice[0],
-            header_slice[1],
-            header_slice[2],
-            header_slice[3],
-        ]);
+        let fmt_start = Self::find_chunk(&header_binary, b"fmt ").unwrap_or(20);
+        let fmt = header_binary
+            .get(fmt_start..fmt_start + 16)
+            .ok_or("header failed to read")?;
+
+        header.as_bytes_mut()[0..12].copy_from_slice(&header_binary[0..12]);
+        header.as_bytes_mut()[20..36].copy_from_slice(fmt);
+
+        header.file_size_data = header_binary
+            .get(data_start - 4..data_start)
+            .map(|size| u32::from_le_bytes([size[0], size[1], size[2], size[3]]))
+            .ok_or("header failed to read")?;
 
         if header.bits_per_sample != 16 && header.bits_per_sample != 8 {
             return Err("invalid bits per sample, either 16 or 8 bits per sample is supported ");
@@ -183,19 +173,33 @@ impl WavCodec {
         if header.audio_format != 1 {
             return Err("formats other than PCM liner isn't supported");
         }
+        if header.num_channels == 0 {
+            return Err("a stream without channels isn't supported");
+        }
 
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
 
         wav_res
-            .seek(SeekFrom::Start(data_start as u64 + 8))
+            .seek(SeekFrom::Start(data_start as u64))
             .map_err(|_| "failed to seek to pcm data")?;
 
+        //programs that write to a pipe leave both sizes empty
+        let data_len = match (header.file_size, header.file_size_data) {
+            (0, 0) => u64::MAX,
+            (_, len) => len as u64,
+        };
+
         let mut pcm = Vec::<u8>::new();
         wav_res
+            .take(data_len)
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
+        //a truncated file can end in the middle of a frame
+        let frame_size = header.num_channels as u16 as usize * header.bits_per_sample as usize / 8;
+        pcm.truncate(pcm.len() / frame_size * frame_size);
+
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
             let len = pcm.len();
@@ -215,13 +219,30 @@ impl WavCodec {
         Ok(Self {
             info: StreamInfo {
                 sample_rate: header.frequncy as u32,
-                channels: header.num_channels as u32,
+                channels: header.num_channels as u16 as u32,
             },
             pcm,
             short_cursor: 0,
         })
     }
 
+    /// finds where the contents of chunk `id` start, if that is within the `header` bytes
+    fn find_chunk(header: &[u8], id: &[u8; 4]) -> Option<usize> {
+        let mut start = 12usize;
+        loop {
+            let size = header.get(start + 4..start + 8)?;
+            let size = u32::from_le_bytes([size[0], size[1], size[2], size[3]]) as usize;
+            if &header[start..start + 4] == id {
+                return Some(start + 8);
+            }
+            //chunks are padded to an even size
+            start = start.checked_add(8)?.checked_add(size)?.checked_add(size % 2)?;
+            if start > header.len() {
+                return None;
+            }
+        }
+    }
+
     fn num_samples(&self) -> usize {
         self.pcm.len() / 2
     }
-- 
2.43.0


From 170b210f0cf6360c89648f934cc5c8c6a6063f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 16/26] fix: decode WAV samples without reinterpreting the byte
 buffer

A Vec<u8> isn't aligned for i16, its buffer is dangling at address 1 when empty, so
decoding an empty recording panicked in debug builds.
---
 src/codec/wav.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index baaf991..d1fb4b3 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -247,15 +247,6 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
-    #[allow(dead_code)]
-    fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
-        unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
-    }
-
     /// writes a sample at current cursor positions (will offset the cursor)
     fn write_sample(&mut self, truncated_sample: i16) {
         let upper_byte = ((truncated_sample >> 8) & 0xff) as u8;
@@ -301,13 +292,14 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
+        let pcm = &self.pcm;
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let byte_index = (*cursor as usize) << 1;
+            let sample_i16 = i16::from_le_bytes([pcm[byte_index], pcm[byte_index + 1]]);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From 3708e0d66db06e79f8c8e2f63f49fa158af17bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 17/26] fix: seek WAV streams to whole frames, from the end too

The cursor was clamped to the last sample, in the middle of a frame, and to -1 in an empty
stream. SeekFrom::End counted from the start.
---
 src/codec/wav.rs | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index d1fb4b3..4a7961e 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -310,30 +310,18 @@ impl Streamable for WavCodec {
     }
 
     fn seek(&mut self, dt: SeekFrom) {
-        let sample_rate = self.info.sample_rate as f32;
-        let num_channels = self.info.channels() as i64;
-        let num_samples = self.num_samples() as i64;
-
-        let sample_rate_in_milliseconds = sample_rate / 1000.0;
-
-        match dt {
-            SeekFrom::Current(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::Start(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::End(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-        }
+        let sample_rate = self.info.sample_rate as i128;
+        let num_channels = self.info.channels() as i128;
+        let num_frames = self.num_samples() as i128 / num_channels;
+
+        let (start_frame, dt) = match dt {
+            SeekFrom::Current(dt) => (self.short_cursor as i128 / num_channels, dt as i128),
+            SeekFrom::Start(dt) => (0, dt as i128),
+            SeekFrom::End(dt) => (num_frames, dt as i128),
+        };
+
+        let frame = (start_frame + sample_rate * dt / 1000).clamp(0, num_frames);
+        self.short_cursor = (frame * num_channels) as u64;
     }
 }
 
-- 
2.43.0


From 3af2964a2fb0fe9b2a293ad426f8c682bff4e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 18/26] fix: exit with an error when a file could not be
 converted

The result of saving an .adhoc file was dropped and so were all results in main, the
tool exited with status 0 whatever happened.
---
 src/main.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..4feb829 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -67,7 +67,7 @@ pub fn cli() {
 
     if Path::new(output_directory).is_dir() == false {
         eprintln!("directory specified is not valid!");
-        return;
+        std::process::exit(1);
     }
 
     let input_files = m
@@ -84,11 +84,22 @@ pub fn cli() {
     // println!("input files {:?}",input_files);
     // println!("output_directory: {:?}",output_directory);
 
-    input_files.par_iter().for_each(|file_path| {
-        let input: &Path = file_path.as_ref();
-        let output_dir: &Path = output_directory.as_ref();
-        convert_file(input, output_dir, compression_level);
-    });
+    let failed_count = input_files
+        .par_iter()
+        .filter(|file_path| {
+            let input: &Path = file_path.as_ref();
+            let output_dir: &Path = output_directory.as_ref();
+            let failed = convert_file(input, output_dir, compression_level).is_none();
+            if failed {
+                eprintln!("failed to convert {}", file_path);
+            }
+            failed
+        })
+        .count();
+
+    if failed_count > 0 {
+        std::process::exit(1);
+    }
 }
 
 pub fn convert_file(input: &Path, output_dir: &Path, compression_level: u32) -> Option<()> {
@@ -127,9 +138,7 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     
     // println!("final dest = {:?}",file_dest);
 
-    compressed_wav.save_to(File::create(file_dest).ok()?);
-
-    Some(())
+    compressed_wav.save_to(File::create(file_dest).ok()?)
 }
 fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let file = File::open(input).ok()?;
-- 
2.43.0


From 24f0b8cae6dcdccd1877d50df20ffffece5acea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 19/26] fix: convert files with more than 1024 channels

A frame didn't fit the tool's buffer, so the output was empty and reported as converted.
---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4feb829..45040d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,7 +123,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    // decode(..) delivers nothing if a frame doesn't fit
+    let mut buffer = vec![0.0; parsed_wav.info().channels().max(1024)];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -147,7 +148,8 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    // decode(..) delivers nothing if a frame doesn't fit
+    let mut buffer = vec![0.0; src_adhoc.info().channels().max(1024)];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From 68f4f0a7737bfb7cff1b0a5055d641c7a5e03a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/26] fix: keep dots in the names of converted files

"a.1.wav" and "a.2.wav" were both written to "a.adhoc", so one of them was lost.
---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 45040d7..2a5a21e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -135,7 +135,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     file_dest.push(file_name);
 
     // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
+    // set_extension(..) would replace what follows a dot in the name
+    file_dest.as_mut_os_string().push(".adhoc");
     
     // println!("final dest = {:?}",file_dest);
 
@@ -157,7 +158,7 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
 
     let mut file_dest = PathBuf::from(output_dir);
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
+    file_dest.as_mut_os_string().push(".wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From c631b2ac8ffe06f5260431231c71d9c929831a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 21/26] fix: a full CircularStack said it was empty

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From b9649d7773d0ddb870306ca61548a31893530660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 22/26] fix: damaged seek positions overflowed on 32-bit
 targets

A file whose stored position of a frame does not fit a 32-bit index made peek_bits
overflow (a panic in builds with overflow checks); in other builds the position wrapped
around to some place inside the stream.
---
 src/collections/bitstream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index dc4ae21..6f05730 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -146,13 +146,13 @@ impl BitStream {
             .unwrap_or(!0);
 
         let cur_chunk_idx = self.chunk_index();
-        let nxt_chunk_idx = cur_chunk_idx + 1;
         let chunk_bit_idx = self.chunk_bit_index();
 
         // return 0 if oob
         if cur_chunk_idx >= self.binary.len() {
             return 0;
         }
+        let nxt_chunk_idx = cur_chunk_idx + 1;
 
         bits |= self.binary[cur_chunk_idx] >> chunk_bit_idx;
         let remaining_bits = 128 - chunk_bit_idx;
@@ -356,7 +356,8 @@ impl BitStream {
     }
 
     fn chunk_index(&self) -> usize {
-        (self.bit_cursor / 128) as usize
+        // a position beyond what memory can hold isn't in the stream
+        usize::try_from(self.bit_cursor / 128).unwrap_or(usize::MAX)
     }
     fn chunk_bit_index(&self) -> usize {
         (self.bit_cursor % 128) as usize
-- 
2.43.0


From ae988d8892bd0d2b90a97bfbcc60222d53474844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:09 +0000
Subject: [PATCH 23/26] fix: refuse to save recordings that a WAV header can't
 describe

---
 src/codec/wav.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 4a7961e..7c66105 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -113,16 +113,24 @@ impl WavCodec {
     where
         Resource: Write,
     {
+        //the header has 16 bits for the number of channels and 32 bits for the sizes
+        let num_channels =
+            u16::try_from(self.info.channels).map_err(|_| "too many channels for a wav file")?;
+        let pcm_len = u32::try_from(self.pcm.len()).ok();
+        let (pcm_len, file_size) = pcm_len
+            .and_then(|len| Some((len, len.checked_add(mem::size_of::<RawWavHeader>() as u32 - 8)?)))
+            .ok_or("recording is too long for a wav file")?;
+
         let mut header = RawWavHeader::default();
-        header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
+        header.file_size = file_size;
         header.frequncy = self.info.sample_rate as i32;
         header.audio_format = 1;
-        header.num_channels = self.info.channels as i16;
+        header.num_channels = num_channels as i16;
         header.cksize = 16;
         header.bytes_per_sec = self.info.sample_rate.wrapping_mul(self.info.channels * 2) as i32;
         header.block_align = (self.info.channels * 2) as i16;
         header.bits_per_sample = 16;
-        header.file_size_data = self.pcm.len() as u32;
+        header.file_size_data = pcm_len;
         // println!("header:\n{}\n",header);
         dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
-- 
2.43.0


From c8bdc624dc28f8d9588c3239b77462fb1d95244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:09 +0000
Subject: [PATCH 24/26] fix: load recordings of more than 65535 channels again

---
 src/codec/adhoc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4800211..0e19a11 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -198,8 +198,10 @@ impl AdhocCodec {
             .ok()
             .and_then(|slim| {
                 let info = slim.stream.info()?;
+                //a damaged channel count is noticed by the number of frames, if there are any
+                let max_channels = slim.frame_header_list.len().max(u16::MAX as usize);
                 if slim.compression_level > 10
-                    || !(1..=u16::MAX as u32).contains(&info.channels)
+                    || !(1..=max_channels).contains(&info.channels())
                     || !slim.frame_header_list.is_consistent(info.channels())
                 {
                     return None;
-- 
2.43.0


From 5cef3da0151658e437267167900e02fa88541994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:09 +0000
Subject: [PATCH 25/26] fix: read and write WAV headers on big-endian machines

---
 src/codec/wav.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 7c66105..9e0b35b 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -67,6 +67,19 @@ impl Display for RawWavHeader {
 }
 
 impl RawWavHeader {
+    /// the numbers in a file are little-endian, whatever machine this is
+    fn swap_if_big_endian(mut self) -> Self {
+        self.file_size = self.file_size.to_le();
+        self.cksize = self.cksize.to_le();
+        self.audio_format = self.audio_format.to_le();
+        self.num_channels = self.num_channels.to_le();
+        self.frequncy = self.frequncy.to_le();
+        self.bytes_per_sec = self.bytes_per_sec.to_le();
+        self.block_align = self.block_align.to_le();
+        self.bits_per_sample = self.bits_per_sample.to_le();
+        self.file_size_data = self.file_size_data.to_le();
+        self
+    }
     pub fn as_bytes(&self) -> &[u8] {
         unsafe {
             let bytes: *const u8 = mem::transmute(self);
@@ -132,7 +145,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = pcm_len;
         // println!("header:\n{}\n",header);
-        dst.write_all(header.as_bytes())
+        dst.write_all(header.swap_if_big_endian().as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")?;
@@ -169,6 +182,7 @@ impl WavCodec {
 
         header.as_bytes_mut()[0..12].copy_from_slice(&header_binary[0..12]);
         header.as_bytes_mut()[20..36].copy_from_slice(fmt);
+        let mut header = header.swap_if_big_endian();
 
         header.file_size_data = header_binary
             .get(data_start - 4..data_start)
-- 
2.43.0


From e170c032ec9bd4cb2b0ddbccd43ff04718cf0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:07 +0000
Subject: [PATCH 26/26] fix: wide recordings on 32-bit targets

The size of the blocks a delivery is split into overflowed usize from 65538 channels on.
---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0e19a11..f79f95d 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -338,7 +338,7 @@ impl Streamable for AdhocCodec {
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
         // frame headers store the size of a frame in 16 bits
         let num_channels = self.info().channels();
-        for block in samples.chunks(u16::MAX as usize * num_channels) {
+        for block in samples.chunks((u16::MAX as usize).saturating_mul(num_channels)) {
             self.encode(block);
         }
 
-- 
2.43.0

