S = "chromaprint/src/"
BUGS = []
def bug(id, edits, needs, breaks, demo=None, demo_sh=None, prop=None):
    b = dict(id=id, prop=prop or id[:3], edits=[(S + f if "/" not in f else f, o, n) for f, o, n in edits], needs=needs, breaks=breaks)
    if demo: b["demo"] = (S + demo[0] if "/" not in demo[0] else demo[0], demo[1])
    if demo_sh: b["demo_sh"] = demo_sh
    BUGS.append(b)
A = "audio_processor.rs"
NOISE = "fn noise(n: usize) -> Vec<i16> { let mut z = 7u64; (0..n).map(|_| { z = z.wrapping_add(0x9E3779B97F4A7C15); let mut y = z; y = (y ^ (y >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); y = (y ^ (y >> 27)).wrapping_mul(0x94D049BB133111EB); (y ^ (y >> 31)) as i16 }).collect() }"
bug("C02-id", [("compression.rs", "            self.0.id(),\n            ((size", "            self.0.id() & 0x7F,\n            ((size")],
    "a configuration with an id above 127", "the first byte is not the id",
    ("compression.rs", '''
    #[test]
    fn t() { let c = Configuration::default().with_id(200); assert_eq!(FingerprintCompressor::from(&c).compress(&[1, 2])[0], 200); }'''))
bug("C02-mid", [("compression.rs", "            ((size >> 8) & 0xFF) as u8,\n            (size & 0xFF) as u8,", "            (size / 256) as u8,\n            (size % 255) as u8,")],
    "a fingerprint of 255 items or more", "the low byte of the item count is wrong",
    ("compression.rs", '''
    #[test]
    fn t() { let c = Configuration::default(); let o = FingerprintCompressor::from(&c).compress(&vec![0u32; 300]); assert_eq!(&o[1..4], &[0, 1, 44]); }'''))
bug("C07-half", [(A, "            if self.buffer.len() == self.buffer_offset {\n                // Full buffer", "            if self.buffer_offset * 2 >= self.buffer.len() {\n                // Enough samples")],
    "a stream at another rate whose last samples exactly reach half of the buffer", "samples left in the resampler input are only flushed when the buffer is non-empty, so the end of the stream depends on the calls",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(16384 * 25);
        let run = |cut: usize| { let mut p = Fingerprinter::new(&Configuration::preset_test5()); p.start(11026, 1).unwrap(); for c in s.chunks(cut) { p.consume(c); } p.finish(); p.fingerprint().to_vec() };
        let all = run(s.len()); for cut in [10_000, 9_999, 5_000, 12_345] { assert_eq!(all, run(cut)); }
    }'''))
bug("C07-odd", [(A, "        let available_samples = input.len() / channels;\n        let consumed = available_samples.min(self.available_space());", "        let available_samples = input.len() / channels;\n        let mut consumed = available_samples.min(self.available_space());\n        if channels > 2 && consumed < available_samples {\n            // keep the tail of the block aligned\n            consumed = consumed / channels * channels;\n        }\n        if consumed == 0 {\n            self.buffer_offset = self.buffer.len();\n        }")],
    "three or more channels and a call that overfills the buffer at an unaligned position", "the buffer is padded with stale samples",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(3 * 150_000);
        let run = |cut: usize| { let mut p = Fingerprinter::new(&Configuration::default()); p.start(11025, 3).unwrap(); for c in s.chunks(cut * 3) { p.consume(c); } p.finish(); p.fingerprint().to_vec() };
        assert_eq!(run(1), run(150_000));
    }'''))
bug("C11-pad", [("fft.rs", "    fn flush(&mut self) {\n", "    fn flush(&mut self) {\n        if self.ring_buf.len() + 1 == self.frame_size {\n            self.consume(&[0.0]);\n        }\n")],
    "a stream that ends one sample before the end of a frame", "the incomplete frame yields an item",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        let c = Configuration::preset_test2();
        let n = 4096 + 1365 * 25 - 1;
        let mut p = Fingerprinter::new(&c); p.start(11025, 1).unwrap(); p.consume(&vec![3i16; n]); p.finish();
        assert_eq!(p.fingerprint().len(), 25 - 4 - 15);
    }'''))
bug("C11-window", [("fingerprint_calculator.rs", "                .push(self.calculate_subfingerprint(self.image.rows() - self.max_filter_width));", "                .push(self.calculate_subfingerprint((self.image.rows() - self.max_filter_width).min(self.fingerprint.len())));\n            self.fingerprint.truncate(1 << 12);")],
    "a stream of more than 4096 items (about eight and a half minutes)", "no further items are appended",
    ("fingerprint_calculator.rs", '''
    #[test]
    fn t() {
        use crate::filter::{Filter, FilterKind}; use crate::quantize::Quantizer;
        let mut f = FingerprintCalculator::new(vec![Classifier::new(Filter::new(FilterKind::Filter0, 0, 3, 4), Quantizer::new(0.1, 0.2, 0.3))]);
        for _ in 0..5003 { f.consume(&[0.5; 12]); }
        assert_eq!(f.output().len(), 5000);
    }'''))
bug("C14-align", [("fingerprint_calculator.rs", "        for classifier in &self.classifiers {\n            bits = (bits << 2) | gray_code(classifier.classify(&self.image, offset));\n        }", "        for (i, classifier) in self.classifiers.iter().enumerate().take(16) {\n            bits |= gray_code(classifier.classify(&self.image, offset)) << (2 * (15 - i));\n        }")],
    "a configuration with fewer than sixteen classifiers", "the pairs are placed at the top of the item instead of forming one number",
    ("fingerprint_calculator.rs", '''
    #[test]
    fn t() {
        use crate::filter::{Filter, FilterKind}; use crate::quantize::Quantizer;
        let mut f = FingerprintCalculator::new(vec![Classifier::new(Filter::new(FilterKind::Filter0, 0, 3, 2), Quantizer::new(0.1, 0.2, 0.3)), Classifier::new(Filter::new(FilterKind::Filter1, 0, 4, 2), Quantizer::new(-1.0, 1.0, 2.0))]);
        for _ in 0..3 { f.consume(&[0.5; 12]); }
        assert_eq!(f.output(), &[(2 << 2) | 1, (2 << 2) | 1]);
    }'''))
bug("C14-eps", [("quantize.rs", "        if val < self.t1 {\n            if val < self.t0 {", "        if val < self.t1 - f64::EPSILON {\n            if val < self.t0 {")],
    "a filter value within 2e-16 below the middle threshold", "it is quantized to 2 instead of 1",
    ("quantize.rs", '''
    #[test]
    fn t() { assert_eq!(Quantizer::new(0.0, 0.1, 0.3).quantize(0.1 - 1e-16), 1); }'''))
bug("C14-top", [("quantize.rs", "        } else if val < self.t2 {", "        } else if val < self.t2.max(self.t1 + 0.01) {")],
    "a classifier whose upper two thresholds are less than 0.01 apart", "values just above the upper threshold are quantized to 2",
    ("quantize.rs", '''
    #[test]
    fn t() { assert_eq!(Quantizer::new(0.0, 0.1, 0.105).quantize(0.107), 3); }'''))
bug("C15-clamp", [("gaussian.rs", "        for _ in 0..size {\n            out.push(sum / w as f64);", "        for _ in 0..size {\n            out.push((sum / w as f64).max(0.0));")],
    "a window at least as wide as a sequence with negative values", "negative means are replaced by 0",
    ("gaussian.rs", '''
    #[test]
    fn t() { let mut o = vec![0.0; 2]; box_filter(&[-1.0, -3.0], &mut o, 5); assert!(o.iter().all(|x| *x < -1.0)); }'''))
bug("C15-parity", [("gaussian.rs", "    if data1.as_ptr() != output.as_ptr() {", "    if (n - m.min(n)) % 2 == 0 {")],
    "an even number of passes of which an odd number uses the narrower window", "the result stays in the input buffer",
    ("gaussian.rs", '''
    #[test]
    fn t() {
        for n in 2..8usize { for k in 4..60 {
            let s = k as f64 * 0.25;
            let w = (12.0 * s * s / n as f64 + 1.0).sqrt().floor() as usize; let wl = w - (w % 2 == 0) as usize; let f = wl as f64;
            let m = ((12.0 * s * s - n as f64 * f * f - 4.0 * n as f64 * f - 3.0 * n as f64) / (-4.0 * f - 4.0)).round() as usize;
            let mut a: Vec<f64> = (0..40).map(|x| (x % 7) as f64).collect();
            let mut i = a.clone(); let mut o = vec![-1000.0; 40]; gaussian_filter(&mut i, &mut o, s, n);
            for k in 0..n { let mut b = vec![0.0; 40]; box_filter(&a, &mut b, if k < m { wl } else { wl + 2 }); a = b; }
            for (x, y) in a.iter().zip(&o) { assert!((x - y).abs() < 1e-9, "{s} {n}"); } } }
    }'''))
bug("C15-tail", [("gradient.rs", "                for next in iter {\n                    f0 = f1;\n                    f1 = f2;\n                    f2 = next;", "                for next in iter {\n                    if next != f2 || f1 != f2 {\n                        f0 = f1;\n                    }\n                    f1 = f2;\n                    f2 = next;")],
    "three equal consecutive values after a change", "the gradient of the plateau uses an older value",
    ("gradient.rs", '''
    #[test]
    fn t() { let mut o = vec![]; gradient([0.0, 3.0, 3.0, 3.0, 3.0].into_iter(), &mut o); assert_eq!(o, vec![3.0, 1.5, 0.0, 0.0, 0.0]); }'''))
REC = '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl FeatureVectorConsumer for Rec { fn consume(&mut self, f: &[f64]) { self.0 = f.to_vec(); } fn reset(&mut self) {} }
'''
bug("C16-low", [("chroma.rs", "        self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);", "        self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(8);")],
    "a frame size below 4096", "the lowest spectrum lines are dropped",
    ("chroma.rs", REC + '''
    #[test]
    fn t() { let mut c = Chroma::new(28, 3520, 2048, 11025, Rec(vec![])); let mut f = vec![0.0; 1025]; f[6] = 5.0; c.consume(&f); assert!((c.consumer.0.iter().sum::<f64>() - 5.0).abs() < 1e-9); }'''))
bug("C16-fract", [("chroma.rs", "            let note = NUM_BANDS as f64 * (octave - octave.floor());", "            let note = NUM_BANDS as f64 * octave.fract();")],
    "energy in the lowest spectrum line (26.9 Hz), below the base note", "it is assigned to band 0 instead of band 11",
    ("chroma.rs", REC + '''
    #[test]
    fn t() { let mut c = Chroma::new(28, 3520, 4096, 11025, Rec(vec![])); let mut f = vec![0.0; 2049]; f[10] = 5.0; c.consume(&f); assert!((c.consumer.0[11] - 5.0).abs() < 1e-9, "{:?}", c.consumer.0); }'''))
bug("C16-skip", [("chroma.rs", "            let note = self.notes[i] as usize;", "            if *energy > 1e12 {\n                continue;\n            }\n            let note = self.notes[i] as usize;")],
    "a very loud spectrum line", "its energy is not counted",
    ("chroma.rs", REC + '''
    #[test]
    fn t() { let mut c = Chroma::new(28, 3520, 4096, 11025, Rec(vec![])); let mut f = vec![0.0; 2049]; f[100] = 5e12; c.consume(&f); assert!(c.consumer.0.iter().sum::<f64>() > 1e12); }'''))
bug("C12-wrap", [("rolling_image.rs", "        if self.rows > 0 {\n            for i in 0..self.columns {", "        if self.rows % self.max_rows > 0 {\n            for i in 0..self.columns {")],
    "more rows than the storage holds and an area that spans the wrap", "the sums restart at the wrap",
    ("rolling_image.rs", '''
    #[test]
    fn t() { let mut im = RollingIntegralImage::new(4); for _ in 0..7 { im.add_row(&[1.0f64]); } assert_eq!(im.area(4, 0, 6, 1), 2.0); }'''))
bug("C12-cols", [("rolling_image.rs", "        if self.columns == 0 {\n            self.columns = row.len();", "        if self.rows == 0 {\n            self.columns = self.columns.max(row.len());"), ("rolling_image.rs", "        self.rows = 0;\n        self.columns = 0;\n    }", "        self.rows = 0;\n    }")],
    "a reset followed by narrower rows", "the image does not accept the rows a new one accepts",
    ("rolling_image.rs", '''
    #[test]
    fn t() { let mut im = RollingIntegralImage::new(4); im.add_row(&[1.0f64, 2.0]); im.reset(); im.add_row(&[1.0f64]); assert_eq!(im.area(0, 0, 1, 1), 1.0); }'''))
bug("C19-ms", [("fingerprinter.rs", "        self.samples_in_item() as f32 / self.sample_rate() as f32", "        (self.samples_in_item() * 1000 / self.sample_rate() as usize) as f32 / 1000.0")],
    "an item duration that is not a whole number of milliseconds", "the item duration is truncated to milliseconds",
    ("fingerprinter.rs", '''
    #[test]
    fn t() { let c = Configuration::default(); assert!((c.item_duration_in_seconds() - 1365.0 / 11025.0).abs() < 1e-6); }'''))
bug("C19-default", [("fingerprinter.rs", "            * self.samples_in_item()\n            + self.frame_overlap", "            * self.samples_in_item()\n            + DEFAULT_FRAME_OVERLAP")],
    "a configuration with another frame overlap", "the delay uses the default overlap",
    ("fingerprinter.rs", '''
    #[test]
    fn t() { let c = Configuration::preset_test5(); assert_eq!(c.delay(), (4 + 15) * 1024 + 1024); }'''))
bug("C08-columns", [("rolling_image.rs", "        self.data.clear();\n        self.rows = 0;\n        self.columns = 0;", "        self.rows %= self.max_rows;\n        if self.rows > 0 {\n            self.rows = 0;\n            self.columns = 0;\n            self.data.clear();\n        }")],
    "a first stream with exactly a multiple of 256 feature rows", "the image keeps the rows of the first stream",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let n = 4096 + 1365 * (256 + 4 - 1);
        let s = noise(n); let mut r = s.clone(); r.reverse();
        let mut p = Fingerprinter::new(&Configuration::default()); p.start(11025, 1).unwrap(); p.consume(&r); p.finish();
        p.start(11025, 1).unwrap(); p.consume(&s[..60_000]); p.finish();
        let mut q = Fingerprinter::new(&Configuration::default()); q.start(11025, 1).unwrap(); q.consume(&s[..60_000]); q.finish();
        assert_eq!(p.fingerprint(), q.fingerprint());
    }'''))
bug("C10-limit", [(A, "        if sample_rate <= MIN_SAMPLE_RATE {", "        if sample_rate < MIN_SAMPLE_RATE {")],
    "a rate of exactly 1000 Hz", "it is accepted",
    (A, '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl AudioConsumer<f64> for Rec { fn reset(&mut self) { self.0.clear() } fn consume(&mut self, d: &[f64]) { self.0.extend_from_slice(d) } fn flush(&mut self) {} }
    #[test]
    fn t() { let mut p = AudioProcessor::new(11025, Rec(vec![])); assert!(matches!(p.reset(1000, 1), Err(ResetError::SampleRateTooLow))); }'''))
bug("C17-wrap", [("chroma_filter.rs", "                        self.buffer[(offset + j) % self.buffer.len()][i] * self.coefficients[j];", "                        self.buffer[(offset + j) % self.buffer.len()][i] * self.coefficients[(j + offset / 7) % self.coefficients.len()];")],
    "a row count at which the window starts at the last slot of the buffer", "the coefficients are rotated by one",
    ("chroma_filter.rs", '''
    struct Rec(Vec<Vec<f64>>);
    impl Stage for Rec { type Output = Vec<Vec<f64>>; fn output(&self) -> &Vec<Vec<f64>> { &self.0 } }
    impl FeatureVectorConsumer for Rec { fn consume(&mut self, f: &[f64]) { self.0.push(f.to_vec()) } fn reset(&mut self) {} }
    #[test]
    fn t() { let mut c = ChromaFilter::new(vec![1.0, 10.0].into_boxed_slice(), Rec(vec![])); for i in 0..20 { c.consume(&[i as f64; 12]); } for (k, r) in c.consumer.0.iter().enumerate() { assert_eq!(r[0], k as f64 + 10.0 * (k + 1) as f64); } }'''))
bug("C18-inf", [("chroma_normalizer.rs", "threshold", "threshold")], "", "")
BUGS.pop()
M = "fingerprint_matcher.rs"
bug("C06-right", [(M, "            let is_peak_right = if i < histogram_size - 1 {\n                histogram[i + 1] <= count", "            let is_peak_right = if i < histogram_size - 1 {\n                histogram[i + 1] < count")],
    "the best count shared by two neighbouring alignments", "the smaller of two tied neighbouring alignments is dropped or both are",
    (M, '''
    #[test]
    fn t() {
        // alignments 0 and 1 tie with two pairs each; the larger offset of the first fingerprint wins
        let a: Vec<u32> = vec![1 << 20, 2 << 20, 2 << 20, 9 << 20];
        let b: Vec<u32> = vec![1 << 20, 2 << 20, 9 << 20, 5 << 20];
        let n = |d: isize| (0..4isize).filter(|j| { let i = j + d; i >= 0 && i < 4 && a[i as usize] >> 20 == b[*j as usize] >> 20 }).count();
        let mut best = (0, 0isize); for d in -3..4 { if (n(d), d) >= best { best = (n(d), d); } }
        let s = match_fingerprints(&a, &b, &Configuration::default()).unwrap();
        assert!(!s.is_empty()); assert_eq!(s[0].offset1 as isize - s[0].offset2 as isize, best.1);
    }'''))
bug("C06-flat", [(M, "            let is_peak_left = if i > 0 {\n                histogram[i - 1] <= count", "            let is_peak_left = if i > 0 {\n                histogram[i - 1] < count")],
    "the best count shared by two neighbouring alignments", "the larger of two tied neighbouring alignments is not considered",
    (M, '''
    #[test]
    fn t() {
        let a: Vec<u32> = vec![1 << 20, 2 << 20, 2 << 20, 9 << 20];
        let b: Vec<u32> = vec![1 << 20, 2 << 20, 9 << 20, 5 << 20];
        let n = |d: isize| (0..4isize).filter(|j| { let i = j + d; i >= 0 && i < 4 && a[i as usize] >> 20 == b[*j as usize] >> 20 }).count();
        let mut best = (0, 0isize); for d in -3..4 { if (n(d), d) >= best { best = (n(d), d); } }
        let s = match_fingerprints(&a, &b, &Configuration::default()).unwrap();
        assert!(!s.is_empty()); assert_eq!(s[0].offset1 as isize - s[0].offset2 as isize, best.1);
    }'''))
bug("C06-mask", [(M, "            if hash1 != hash2 {\n                break;", "            if (hash1 ^ hash2) > (1 << HASH_SHIFT) {\n                break;")],
    "hashes that differ in their lowest bit only", "they are counted as coinciding",
    (M, '''
    #[test]
    fn t() { let s = match_fingerprints(&[4 << 20, 6 << 20, 8 << 20], &[5 << 20, 7 << 20, 9 << 20], &Configuration::default()).unwrap(); assert!(s.is_empty()); }'''))
bug("C03-back", [(M, "                    offset2: offset2 + begin,\n                    items_count: duration,", "                    offset2: if offset_diff >= 0 { begin } else { offset2 + end - duration.max(1).min(end) },\n                    items_count: duration,")],
    "", "", (M, ""))
BUGS.pop()
bug("C20-neg", [(M, "    pub fn start2(&self, config: &Configuration) -> f32 {\n        config.item_duration_in_seconds() * self.offset2 as f32", "    pub fn start2(&self, config: &Configuration) -> f32 {\n        config.item_duration_in_seconds() * self.offset2 as u16 as f32")],
    "an offset of 65536 items or more", "the start in the second stream wraps around",
    (M, '''
    #[test]
    fn t() { let c = Configuration::default(); let s = Segment { offset1: 70000, offset2: 70000, items_count: 1, score: 0.0 }; assert_eq!(s.start1(&c), s.start2(&c)); }'''))
bug("C05-round", [(M, "            let score: f64 = orig_bit_counts[begin..end].iter().sum::<f64>() / (duration as f64);", "            let score: f64 = orig_bit_counts[begin..end].iter().take(1024).sum::<f64>() / (duration.min(1024) as f64);")],
    "a piece of more than 1024 items", "only its first 1024 items are scored",
    (M, '''
    #[test]
    fn t() {
        let a: Vec<u32> = (0..3000u32).map(|i| i << 20).collect(); let b: Vec<u32> = a.iter().enumerate().map(|(i, x)| x | (i > 1500 && i % 2 == 0) as u32).collect();
        for s in match_fingerprints(&a, &b, &Configuration::default()).unwrap() { let n: u32 = (0..s.items_count).map(|i| (a[s.offset1 + i] ^ b[s.offset2 + i]).count_ones()).sum(); assert!((n as f64 / s.items_count as f64 - s.score).abs() < 1e-9); }
    }'''))
bug("C22-carry", [("compare/src/utils.rs", "        DurationDisplay((self * 100.0).round() as _)", "        let whole = self.trunc();\n        DurationDisplay(whole as u64 * 100 + (((self - whole) * 100.0).round() as u64).min(99))")],
    "a duration within half a hundredth below a whole second", "it is rounded down",
    ("compare/src/utils.rs", '''
    #[test]
    fn t() { assert_eq!(1.9990f32.display_duration().to_string(), "0:00:02.00"); }'''))
bug("C09-i16", [(A, "f64::from(sample) / f64::from(i16::MAX)", "f64::from(sample) / if sample < 0 { 32768.0 } else { 32767.0 }")],
    "negative samples", "they are scaled by 1/32768",
    (A, '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl AudioConsumer<f64> for Rec { fn reset(&mut self) { self.0.clear() } fn consume(&mut self, d: &[f64]) { self.0.extend_from_slice(d) } fn flush(&mut self) {} }
    #[test]
    fn t() { let mut p = AudioProcessor::new(11025, Rec(vec![])); p.reset(11025, 1).unwrap(); p.consume(&[-32767]); p.flush(); assert_eq!(p.output()[0], -1.0); }'''))
bug("C09-silent", [(A, "                for sample in input.iter().copied() {\n                    self.push_sample(sample);", "                for sample in input.iter().copied() {\n                    self.push_sample(if sample == i16::MIN { i16::MAX } else { sample });")],
    "a mono sample of -32768", "its sign is flipped",
    (A, '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl AudioConsumer<f64> for Rec { fn reset(&mut self) { self.0.clear() } fn consume(&mut self, d: &[f64]) { self.0.extend_from_slice(d) } fn flush(&mut self) {} }
    #[test]
    fn t() { let mut p = AudioProcessor::new(11025, Rec(vec![])); p.reset(11025, 1).unwrap(); p.consume(&[-32768]); p.flush(); assert!(p.output()[0] < -1.0); }'''))
bug("C13-third5", [("filter.rs", "    let b = image.area(x, y, x + w_3, y + h) + image.area(x + 2 * w_3, y, x + w, y + h);", "    let b = image.area(x, y, x + w_3, y + h) + image.area(x + w - w_3, y, x + w, y + h);")],
    "a Filter5 whose width is not a multiple of three", "the columns left over by the rounding belong to no region",
    ("filter.rs", '''
    struct Img;
    impl Image for Img { fn area(&self, x: usize, y: usize, w: usize, h: usize) -> f64 { let mut s = 0.0; for i in x..w { for j in y..h { s += (i * 100 + j * j) as f64; } } s } }
    #[test]
    fn t() { let im = Img; let w = filter5(&im, 2, 1, 5, 2, |a, b| a + b); assert!((w - im.area(2, 1, 7, 3)).abs() < 1e-9); }'''))
