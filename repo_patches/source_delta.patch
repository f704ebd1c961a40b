From 62327e9a5941912aef458267a0348112093822f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 1/5] fix: clear all pipeline state when a fingerprinter is
 restarted

---
 chromaprint/src/audio_processor.rs | 2 ++
 chromaprint/src/chroma_filter.rs   | 1 +
 chromaprint/src/fft.rs             | 1 +
 3 files changed, 4 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..0905df2 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -131,6 +131,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
         self.channels = channels;
         self.buffer_offset = 0;
+        self.input.clear();
+        self.resampler = None;
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From 239820f447d7b901b0f000a4378c0772dc1b6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 2/5] fix: honour the interpolation setting of the
 configuration

---
 chromaprint/src/chroma.rs        | 6 ++++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..b658df1 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,12 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    /// Enables or disables sharing the energy between neighboring bands.
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From 9f8708765b6e8a55e984149a4f56b71bab676c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 3/5] fix: feed every frame to the right chunk in fpcalc

---
 fpcalc/src/main.rs | 56 ++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..6e0a3aa 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -310,21 +310,30 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+            let mut frame_data = buf.samples();
+
+            // A single buffer may contain the ends of several chunks
+            loop {
+                let first_part_size = frame_size;
+                let (chunk_done, first_part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (first_part_size > remaining, first_part_size.min(remaining))
+                } else {
+                    (false, first_part_size)
+                };
 
-            chunk_size += first_part_size;
+                printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+
+                chunk_size += first_part_size;
+
+                frame_data = &frame_data[first_part_size * reader.channel_count..];
+                frame_size -= first_part_size;
+
+                if !chunk_done {
+                    break;
+                }
 
-            if chunk_done {
                 printer.finish();
 
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
@@ -339,13 +348,11 @@ pub fn main() -> anyhow::Result<()> {
                 }
 
                 if args.overlap {
-                    printer = Fingerprinter::new(config);
                     ts -= overlap;
-                } else {
-                    printer
-                        .start(reader.sample_rate, channel_count)
-                        .context("initializing fingerprinter")?;
                 }
+                printer
+                    .start(reader.sample_rate, channel_count)
+                    .context("initializing fingerprinter")?;
 
                 if first_chunk {
                     extra_chunk_limit = 0;
@@ -355,16 +362,6 @@ pub fn main() -> anyhow::Result<()> {
                 chunk_size = 0;
             }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
-            }
-
-            chunk_size += frame_size;
-
             if stream_done {
                 break;
             }
@@ -374,8 +371,9 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
+        let chunk_duration = chunk_size.saturating_sub(extra_chunk_limit) as f64 * 1.0
+            / f64::from(reader.sample_rate)
+            + overlap;
         result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
     }
 
-- 
2.43.0


From 51e4b440b69dc2465aeaa288a1bfd0ce4746b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 4/5] Add verification hooks guarded by cfg(chromaprint_verif)

---
 chromaprint/src/audio_processor.rs        | 8 ++++++++
 chromaprint/src/chroma.rs                 | 5 +++++
 chromaprint/src/chroma_filter.rs          | 8 ++++++++
 chromaprint/src/chroma_normalizer.rs      | 8 ++++++++
 chromaprint/src/compression.rs            | 5 +++++
 chromaprint/src/fft.rs                    | 5 +++++
 chromaprint/src/filter.rs                 | 5 +++++
 chromaprint/src/fingerprint_calculator.rs | 8 ++++++++
 chromaprint/src/fingerprint_matcher.rs    | 8 ++++++++
 chromaprint/src/fingerprinter.rs          | 8 ++++++++
 chromaprint/src/gaussian.rs               | 5 +++++
 chromaprint/src/gradient.rs               | 5 +++++
 chromaprint/src/lib.rs                    | 8 ++++++++
 chromaprint/src/quantize.rs               | 5 +++++
 chromaprint/src/rolling_image.rs          | 8 ++++++++
 15 files changed, 99 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 0905df2..b1fa874 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -314,3 +314,11 @@ mod tests {
         fn flush(&mut self) {}
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/audio_processor.rs"
+    ));
+}
diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index b658df1..f936265 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -250,3 +250,8 @@ mod tests {
         }
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/chroma.rs"));
+}
diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 28af660..762a37f 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -160,3 +160,11 @@ mod tests {
         }
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/chroma_filter.rs"
+    ));
+}
diff --git a/chromaprint/src/chroma_normalizer.rs b/chromaprint/src/chroma_normalizer.rs
index fe09be4..d76332d 100644
--- a/chromaprint/src/chroma_normalizer.rs
+++ b/chromaprint/src/chroma_normalizer.rs
@@ -80,3 +80,11 @@ mod tests {
         }
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/chroma_normalizer.rs"
+    ));
+}
diff --git a/chromaprint/src/compression.rs b/chromaprint/src/compression.rs
index 06f58d3..78acc22 100644
--- a/chromaprint/src/compression.rs
+++ b/chromaprint/src/compression.rs
@@ -265,3 +265,8 @@ mod tests {
         assert_eq!(output, OUTPUT);
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/compression.rs"));
+}
diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 3905eca..978087e 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -246,3 +246,8 @@ mod tests {
         }
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/fft.rs"));
+}
diff --git a/chromaprint/src/filter.rs b/chromaprint/src/filter.rs
index 5736bd7..8904f61 100644
--- a/chromaprint/src/filter.rs
+++ b/chromaprint/src/filter.rs
@@ -265,3 +265,8 @@ mod tests {
         a - b
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/filter.rs"));
+}
diff --git a/chromaprint/src/fingerprint_calculator.rs b/chromaprint/src/fingerprint_calculator.rs
index 8f62a02..a0140a3 100644
--- a/chromaprint/src/fingerprint_calculator.rs
+++ b/chromaprint/src/fingerprint_calculator.rs
@@ -62,3 +62,11 @@ impl FeatureVectorConsumer for FingerprintCalculator {
 fn gray_code(i: u32) -> u32 {
     [0, 1, 3, 2][i as usize]
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/fingerprint_calculator.rs"
+    ));
+}
diff --git a/chromaprint/src/fingerprint_matcher.rs b/chromaprint/src/fingerprint_matcher.rs
index 198dac3..81da7b6 100644
--- a/chromaprint/src/fingerprint_matcher.rs
+++ b/chromaprint/src/fingerprint_matcher.rs
@@ -733,3 +733,11 @@ mod tests {
         assert_eq_float!(segments[0].score, 3.17183, 0.001);
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/fingerprint_matcher.rs"
+    ));
+}
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 7fdb8c6..c4935b4 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -425,3 +425,11 @@ const CLASSIFIER_TEST3: [Classifier; 16] = [
 ];
 
 const CHROMA_FILTER_COEFFICIENTS: [f64; 5] = [0.25, 0.75, 1.0, 0.75, 0.25];
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/fingerprinter.rs"
+    ));
+}
diff --git a/chromaprint/src/gaussian.rs b/chromaprint/src/gaussian.rs
index c344759..12d7692 100644
--- a/chromaprint/src/gaussian.rs
+++ b/chromaprint/src/gaussian.rs
@@ -257,3 +257,8 @@ mod tests {
         assert_eq_float!(2.33469388, output[2]);
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/gaussian.rs"));
+}
diff --git a/chromaprint/src/gradient.rs b/chromaprint/src/gradient.rs
index c6e8d5b..36d4424 100644
--- a/chromaprint/src/gradient.rs
+++ b/chromaprint/src/gradient.rs
@@ -75,3 +75,8 @@ mod tests {
         assert_eq_float!(6.0, output[3]);
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/gradient.rs"));
+}
diff --git a/chromaprint/src/lib.rs b/chromaprint/src/lib.rs
index bac7a4e..e51a548 100644
--- a/chromaprint/src/lib.rs
+++ b/chromaprint/src/lib.rs
@@ -1,5 +1,7 @@
 //! Pure Rust port of [chromaprint](https://acoustid.org/chromaprint)
 
+#![allow(unexpected_cfgs)] // `chromaprint_verif` guards verification hooks
+
 pub use audio_processor::ResetError;
 pub use compression::FingerprintCompressor;
 pub use fingerprint_matcher::{match_fingerprints, MatchError, Segment};
@@ -22,3 +24,9 @@ mod quantize;
 mod rolling_image;
 mod stages;
 mod utils;
+
+#[doc(hidden)]
+#[cfg(chromaprint_verif)]
+pub mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/lib.rs"));
+}
diff --git a/chromaprint/src/quantize.rs b/chromaprint/src/quantize.rs
index 9fe4bf8..59518f5 100644
--- a/chromaprint/src/quantize.rs
+++ b/chromaprint/src/quantize.rs
@@ -43,3 +43,8 @@ mod tests {
         assert_eq!(3, q.quantize(1000.0));
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("CHROMAPRINT_VERIF_HOOKS"), "/quantize.rs"));
+}
diff --git a/chromaprint/src/rolling_image.rs b/chromaprint/src/rolling_image.rs
index 1723518..ed3d278 100644
--- a/chromaprint/src/rolling_image.rs
+++ b/chromaprint/src/rolling_image.rs
@@ -204,3 +204,11 @@ mod tests {
         );
     }
 }
+
+#[cfg(chromaprint_verif)]
+pub(crate) mod verif {
+    include!(concat!(
+        env!("CHROMAPRINT_VERIF_HOOKS"),
+        "/rolling_image.rs"
+    ));
+}
-- 
2.43.0


From b9d9a4964f83962bf51c090c830889e719623a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 5/5] fix: sum samples of a frame in 64 bits so that mixing
 many channels cannot overflow

---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index b1fa874..ff037df 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -53,9 +53,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0

