From 50be885455494a669a31de050172626fa7005384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 01/11] fix: discard buffered samples when the FFT stage is
 reset

---
 chromaprint/src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From ed449a8813959d0b805bc5f4c8b521f0ec2104ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 02/11] fix: reset the stages behind the chroma filter so that
 start() clears the fingerprint

---
 chromaprint/src/chroma_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
-- 
2.43.0


From e5792c90b7dbb23f141a5c37468f5141a43a6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 03/11] fix: drop the previous resampler when restarted at the
 native sample rate

---
 chromaprint/src/audio_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..a9ccfaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -150,6 +150,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             self.output_buffer
                 .resize(resampler.output_frames_max(), 0.0);
             self.resampler = Some(resampler);
+        } else {
+            self.resampler = None;
         }
 
         Ok(())
-- 
2.43.0


From d83f9d9334a17380d2869211fb8c6b9aaa96e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 04/11] fix: apply the interpolation option of the
 configuration

---
 chromaprint/src/chroma.rs        | 6 ++++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..9d57dd7 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,12 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    /// Enables or disables interpolation between neighbouring bands.
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From 469990921c2e2ef0b7fc35a8ff6749672938a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 05/11] fix: avoid overflow when averaging very many channels

---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index a9ccfaf..d74acaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -53,9 +53,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0


From a5d7752bd48254b29e11e5c8b3ff4f1780a3f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 06/11] fix: keep the resampler's history when the last block
 is incomplete

---
 chromaprint/src/audio_processor.rs | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index d74acaf..80d21b5 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -16,6 +16,7 @@ pub struct AudioProcessor<C: AudioConsumer<f64>> {
     consumer: C,
     target_sample_rate: u32,
     resampler: Option<rubato::SincFixedIn<f64>>,
+    resample_ratio: f64,
 }
 
 impl<C: AudioConsumer<f64>> AudioProcessor<C> {
@@ -29,6 +30,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             consumer,
             target_sample_rate,
             resampler: None,
+            resample_ratio: 1.0,
         }
     }
 
@@ -71,38 +73,37 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         self.buffer_offset = 0;
 
         if let Some(resampler) = self.resampler.as_mut() {
-            let default_input_frames = resampler.input_frames_next();
+            let chunk_size = resampler.input_frames_next();
             while !self.input.is_empty() {
-                if self.input.len() < resampler.input_frames_next() {
+                let available = self.input.len();
+                if available < chunk_size {
                     if is_end {
-                        // Update chunk size to accept the remaining samples
-                        resampler
-                            .set_chunk_size(self.input.len())
-                            .expect("cannot update chunk size for the resampler");
+                        // Complete the last chunk with silence. Changing the chunk size instead
+                        // would make the resampler mix up the end of the previous chunk, which it
+                        // locates using the current chunk size.
+                        self.input.resize(chunk_size, 0.0);
                     } else {
                         break;
                     }
                 }
 
-                let required_input = resampler.input_frames_next();
                 self.output_buffer
                     .resize(resampler.output_frames_next(), 0.0);
-                let (read_samples, written_samples) = resampler
+                let (read_samples, mut written_samples) = resampler
                     .process_into_buffer(
-                        &[&self.input[..required_input]],
+                        &[&self.input[..chunk_size]],
                         std::slice::from_mut(&mut self.output_buffer),
                         None,
                     )
                     .expect("invalid parameters for resampler");
+                if available < chunk_size {
+                    // Skip the output that corresponds to the added silence
+                    let samples = (available as f64 * self.resample_ratio).round() as usize;
+                    written_samples = written_samples.min(samples);
+                }
                 self.input.drain(..read_samples);
                 self.consumer
                     .consume(&self.output_buffer[..written_samples]);
-
-                if is_end {
-                    resampler
-                        .set_chunk_size(default_input_frames)
-                        .expect("cannot restore chunk size for the resampler");
-                }
             }
         } else {
             self.consumer.consume(&self.input);
@@ -134,8 +135,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
+            self.resample_ratio = self.target_sample_rate as f64 / sample_rate as f64;
             let resampler = rubato::SincFixedIn::new(
-                self.target_sample_rate as f64 / sample_rate as f64,
+                self.resample_ratio,
                 1.0,
                 rubato::SincInterpolationParameters {
                     sinc_len: 16,
-- 
2.43.0


From 88b62dd430725a950a28b3a14f4f14a1991599bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 07/11] fix: split packets at every chunk boundary in fpcalc
 without losing samples

---
 fpcalc/src/main.rs | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..dd0921b 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -293,7 +293,7 @@ pub fn main() -> anyhow::Result<()> {
         }
 
         if let Some(buf) = &mut sample_buf {
-            let (stream_done, mut frame_size) = if stream_limit > 0 {
+            let (stream_done, frame_size) = if stream_limit > 0 {
                 let remaining = stream_limit - stream_size;
                 let frame_size = audio_buf.frames();
                 (frame_size > remaining, frame_size.min(remaining))
@@ -310,21 +310,29 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+            let mut frame_data = &buf.samples()[..frame_size * reader.channel_count];
+
+            // A packet may reach past the end of the current chunk, or even of several chunks.
+            loop {
+                let part_size = frame_data.len() / reader.channel_count;
+                let (chunk_done, part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (part_size > remaining, part_size.min(remaining))
+                } else {
+                    (false, part_size)
+                };
+
+                let (part, rest) = frame_data.split_at(part_size * reader.channel_count);
+                printer.consume(part);
+                frame_data = rest;
 
-            chunk_size += first_part_size;
+                chunk_size += part_size;
+
+                if !chunk_done {
+                    break;
+                }
 
-            if chunk_done {
                 printer.finish();
 
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
@@ -355,16 +363,6 @@ pub fn main() -> anyhow::Result<()> {
                 chunk_size = 0;
             }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
-            }
-
-            chunk_size += frame_size;
-
             if stream_done {
                 break;
             }
-- 
2.43.0


From be0280fb0832c16b2d627dfb633066fe9102c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 08/11] fix: make overlapping chunks of fpcalc cover the whole
 stream

---
 fpcalc/src/main.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index dd0921b..fd06c19 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -273,11 +273,14 @@ pub fn main() -> anyhow::Result<()> {
     let mut overlap: f64 = 0.0;
 
     if chunk_limit > 0 && args.overlap {
-        extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        // The delay is expressed in samples at the rate of the fingerprinter.
+        extra_chunk_limit = (config.delay() * sample_rate).div_ceil(config.sample_rate() as usize);
+        overlap = extra_chunk_limit as f64 / sample_rate as f64;
     }
 
     let mut first_chunk = true;
+    // Number of fingerprint items that have been already printed with the previous chunks.
+    let mut printed = 0;
 
     loop {
         let audio_buf = match reader.next_buffer() {
@@ -333,12 +336,23 @@ pub fn main() -> anyhow::Result<()> {
                     break;
                 }
 
-                printer.finish();
+                // Overlapping chunks are parts of a single continuous stream, in the middle of which
+                // the resampler cannot be flushed.
+                if !args.overlap || reader.sample_rate == config.sample_rate() {
+                    printer.finish();
+                }
 
-                let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
-                    / f64::from(reader.sample_rate)
-                    + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                let mut chunk_duration = chunk_size as f64 / f64::from(reader.sample_rate);
+                if !first_chunk {
+                    chunk_duration += overlap;
+                }
+                let fingerprint = printer.fingerprint();
+                result_printer.print_result(
+                    &fingerprint[printed..],
+                    first_chunk,
+                    ts,
+                    chunk_duration,
+                );
 
                 if args.ts {
                     ts = get_current_timestamp();
@@ -347,7 +361,7 @@ pub fn main() -> anyhow::Result<()> {
                 }
 
                 if args.overlap {
-                    printer = Fingerprinter::new(config);
+                    printed = fingerprint.len();
                     ts -= overlap;
                 } else {
                     printer
@@ -372,9 +386,12 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
-        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+        let mut chunk_duration = chunk_size as f64 / f64::from(reader.sample_rate);
+        if !first_chunk {
+            chunk_duration += overlap;
+        }
+        let fingerprint = &printer.fingerprint()[printed..];
+        result_printer.print_result(fingerprint, first_chunk, ts, chunk_duration);
     }
 
     Ok(())
@@ -390,8 +407,7 @@ struct ResultPrinter<'a> {
 }
 
 impl<'a> ResultPrinter<'a> {
-    fn print_result(&self, printer: &Fingerprinter, first: bool, timestamp: f64, duration: f64) {
-        let raw_fingerprint = printer.fingerprint();
+    fn print_result(&self, raw_fingerprint: &[u32], first: bool, timestamp: f64, duration: f64) {
         let fp = if self.raw {
             if self.signed {
                 // FIXME: Use `u32.case_signed()` once it becomes stable.
-- 
2.43.0


From ba461534e40a36052f4cca0b76459e649d3646ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 09/11] fix: accept any length and chunk duration in fpcalc
 without overflow

---
 fpcalc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index fd06c19..e46696c 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -264,10 +264,10 @@ pub fn main() -> anyhow::Result<()> {
     let sample_rate = usize::try_from(reader.sample_rate).context("invalid sample rate")?;
 
     let mut stream_size = 0;
-    let stream_limit = args.length * sample_rate;
+    let stream_limit = args.length.saturating_mul(sample_rate);
 
     let mut chunk_size = 0;
-    let chunk_limit = args.max_chunk_duration() * sample_rate;
+    let chunk_limit = args.max_chunk_duration().saturating_mul(sample_rate);
 
     let mut extra_chunk_limit = 0;
     let mut overlap: f64 = 0.0;
@@ -320,7 +320,7 @@ pub fn main() -> anyhow::Result<()> {
             loop {
                 let part_size = frame_data.len() / reader.channel_count;
                 let (chunk_done, part_size) = if chunk_limit > 0 {
-                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    let remaining = chunk_limit.saturating_add(extra_chunk_limit) - chunk_size;
                     (part_size > remaining, part_size.min(remaining))
                 } else {
                     (false, part_size)
-- 
2.43.0


From e3b86b65b1f7ccbed373b83a370b78283255283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 10/11] fix: fpcalc: report audio decoded with another number
 of channels than announced

A container may announce a number of channels that differs from the one the
codec produces. With more announced than decoded fpcalc panicked slicing the
sample buffer; with fewer announced it silently dropped part of every packet.
---
 fpcalc/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index e46696c..3084492 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -289,8 +289,14 @@ pub fn main() -> anyhow::Result<()> {
             Err(_) => break,
         };
 
+        let spec = *audio_buf.spec();
+        anyhow::ensure!(
+            spec.channels.count() == channel_count as usize,
+            "decoded audio has {} channels instead of {channel_count}",
+            spec.channels.count()
+        );
+
         if sample_buf.is_none() {
-            let spec = *audio_buf.spec();
             let duration = audio_buf.capacity() as u64;
             sample_buf = Some(SampleBuffer::<i16>::new(duration, spec));
         }
-- 
2.43.0


From 079bf6e4d749da7e86dcf7fa3300c37fa7f5422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 11/11] fix: compare: report audio decoded with another number
 of channels than announced

The fingerprinter was started with the announced number of channels, so that
interleaved samples of another number were mixed up, or made it panic when
they did not divide evenly.
---
 compare/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index f479851..1c32668 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -78,8 +78,14 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
 
         match decoder.decode(&packet) {
             Ok(audio_buf) => {
+                let spec = *audio_buf.spec();
+                anyhow::ensure!(
+                    spec.channels.count() == channels as usize,
+                    "decoded audio has {} channels instead of {channels}",
+                    spec.channels.count()
+                );
+
                 if sample_buf.is_none() {
-                    let spec = *audio_buf.spec();
                     let duration = audio_buf.capacity() as u64;
                     sample_buf = Some(SampleBuffer::<i16>::new(duration, spec));
                 }
-- 
2.43.0

