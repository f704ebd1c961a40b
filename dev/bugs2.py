S = "chromaprint/src/"
BUGS = []
def bug(id, edits, needs, breaks, demo=None, demo_sh=None, prop=None):
    b = dict(id=id, prop=prop or id[:3], edits=[(S + f if "/" not in f else f, o, n) for f, o, n in edits], needs=needs, breaks=breaks)
    if demo: b["demo"] = (S + demo[0] if "/" not in demo[0] else demo[0], demo[1])
    if demo_sh: b["demo_sh"] = demo_sh
    BUGS.append(b)

DEC = '''
    fn dec(data: &[u8]) -> Vec<u32> {
        let n = ((data[1] as usize) << 16) | ((data[2] as usize) << 8) | data[3] as usize;
        let get = |base: usize, bits: usize, i: usize| { let mut v = 0u8; for b in 0..bits { let p = i * bits + b; v |= ((data[base + p / 8] >> (p % 8)) & 1) << b; } v };
        let (mut i, mut z) = (0, 0);
        let mut vals = vec![];
        while z < n { let v = get(4, 3, i); i += 1; if v == 0 { z += 1; } vals.push(v); }
        let base = 4 + (i * 3 + 7) / 8;
        let (mut out, mut last, mut cur, mut bit, mut e) = (vec![], 0u32, 0u32, 0usize, 0);
        for v in vals { if v == 0 { last ^= cur; out.push(last); cur = 0; bit = 0; continue; }
            let d = if v == 7 { let d = 7 + get(base, 5, e); e += 1; d } else { v };
            bit += d as usize; cur |= 1u32.checked_shl(bit as u32 - 1).unwrap_or(0); }
        out
    }
'''
bug("C01-gap32", [("compression.rs", "(MAX_NORMAL_VALUE, Some(value - MAX_NORMAL_VALUE))", "(MAX_NORMAL_VALUE, Some(value.min(u32::BITS as u8 - 1) - MAX_NORMAL_VALUE))")],
    "two consecutive items that differ in the most significant bit only", "the exceptional value of a gap of 32 bits is stored as 24",
    ("compression.rs", DEC + '''
    #[test]
    fn t() { let c = Configuration::default(); for fp in [vec![1u32 << 31], vec![5, 5 | 1 << 31]] { assert_eq!(dec(&FingerprintCompressor::from(&c).compress(&fp)), fp); } }'''))
bug("C01-chain", [("compression.rs", "            .scan(0, |last_subfp, current_subfp| {\n                let value = current_subfp ^ *last_subfp;\n                *last_subfp = *current_subfp;\n                Some(value)", "            .scan(0, |last_subfp, current_subfp| {\n                let value = current_subfp ^ *last_subfp;\n                if *current_subfp != 0 {\n                    *last_subfp = *current_subfp;\n                }\n                Some(value)")],
    "an item equal to zero followed by another item", "the difference to a zero item is taken against the item before it",
    ("compression.rs", DEC + '''
    #[test]
    fn t() { let c = Configuration::default(); for fp in [vec![9u32, 0, 3], vec![0, 0, 7, 0, 0x8000_0001]] { assert_eq!(dec(&FingerprintCompressor::from(&c).compress(&fp)), fp); } }'''))
bug("C02-count", [("compression.rs", "            ((size >> 16) & 0xFF) as u8,", "            ((size >> 16) & 0x0F) as u8,")],
    "a fingerprint of 2^20 items or more", "the item count in the header is wrong",
    ("compression.rs", '''
    #[test]
    fn t() { let c = Configuration::default(); let o = FingerprintCompressor::from(&c).compress(&vec![0u32; (1 << 20) + 3]); assert_eq!(&o[..4], &[c.id(), 0x10, 0, 3]); }'''))
bug("C02-pack5", [("compression.rs", "                if left_byte != right_byte {\n                    result[left_byte] |= bits >> ((8 - (rightmost_bit_index % 8)) % 8);", "                if left_byte != right_byte && i + 1 < 8 {\n                    result[left_byte] |= bits >> ((8 - (rightmost_bit_index % 8)).min(4));")],
    "exceptional values whose bits straddle a byte at a distance above 4", "high bits of packed exceptional values are misplaced",
    ("compression.rs", DEC + '''
    #[test]
    fn t() { let c = Configuration::default(); let fp: Vec<u32> = (0..40u32).map(|i| 1 << (6 + i * 7 % 26)).collect(); assert_eq!(dec(&FingerprintCompressor::from(&c).compress(&fp)), fp); }'''))

M = "fingerprint_matcher.rs"
RND = "let mut z = 7u64; let mut rnd = move || { z = z.wrapping_add(0x9E3779B97F4A7C15); let mut y = z; y = (y ^ (y >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); y = (y ^ (y >> 27)).wrapping_mul(0x94D049BB133111EB); (y ^ (y >> 31)) as u32 };"
bug("C03-ties", [(M, "    if let Some((_count, offset)) = best_alignments.into_iter().next() {", "    let best_count = best_alignments.first().map_or(0, |it| it.0);\n    for (_count, offset) in best_alignments.into_iter().take_while(|it| it.0 == best_count) {")],
    "two alignments with the same number of coinciding hashes", "segments of different alignments are returned together and overlap",
    (M, '''
    #[test]
    fn t() {
        let a: Vec<u32> = vec![0x1110_0000, 0x2220_0000, 0x3330_0000, 0x4440_0000, 0x1110_0000, 0x2220_0000, 0x3330_0000, 0x4440_0000];
        let b = vec![0x1110_0000, 0x2220_0000, 0x3330_0000, 0x4440_0000];
        let s = match_fingerprints(&a, &b, &Configuration::default()).unwrap();
        for w in s.windows(2) { assert_eq!(w[0].offset1 as isize - w[0].offset2 as isize, w[1].offset1 as isize - w[1].offset2 as isize); assert!(w[0].offset1 + w[0].items_count <= w[1].offset1); }
    }'''))
bug("C03-inclusive", [(M, "                    items_count: duration,\n                    score,", "                    items_count: duration + usize::from(end < size && end - begin > 1),\n                    score,")],
    "a match that is split into several segments", "a segment extends over the first item of the next one",
    (M, '''
    #[test]
    fn t() {
        ''' + RND + '''
        for _ in 0..200 {
            let mut a: Vec<u32> = (0..120).map(|_| rnd()).collect();
            let mut b = a.clone();
            for i in 40..80 { b[i] ^= (rnd() & rnd()) & 0x000f_ffff; }
            a[10] ^= 1;
            let s = match_fingerprints(&a, &b, &Configuration::default()).unwrap();
            for w in s.windows(2) { assert!(w[0].offset1 + w[0].items_count <= w[1].offset1); }
        }
    }'''))
bug("C04-limit", [(M, "    if fp2.len() + 1 >= OFFSET_MASK as usize {", "    if fp2.len() >= OFFSET_MASK as usize {")],
    "a second fingerprint of exactly 2^19-2 items", "it is accepted",
    (M, '''
    #[test]
    fn t() { let v = vec![0u32; (1 << 19) - 2]; assert!(match_fingerprints(&[], &v, &Configuration::default()).is_err()); assert!(match_fingerprints(&[], &v[1..], &Configuration::default()).is_ok()); }'''))
bug("C04-both", [(M, "    if fp1.len() + 1 >= OFFSET_MASK as usize {\n        return Err(MatchError::FingerprintTooLong { index: 0 });\n    }", "    if fp1.len() + 1 >= OFFSET_MASK as usize {\n        let index = u8::from(fp2.len() > fp1.len());\n        return Err(MatchError::FingerprintTooLong { index });\n    }")],
    "both fingerprints too long and the second one the longer", "the error names the second fingerprint",
    (M, '''
    #[test]
    fn t() { let v = vec![0u32; (1 << 19) + 5]; match match_fingerprints(&v[..v.len() - 1], &v, &Configuration::default()) { Err(MatchError::FingerprintTooLong { index }) => assert_eq!(index, 0), Ok(_) => panic!() } }'''))
CHK = '''
    fn chk(a: &[u32], b: &[u32]) { for s in match_fingerprints(a, b, &Configuration::default()).unwrap() { let n: u32 = (0..s.items_count).map(|i| (a[s.offset1 + i] ^ b[s.offset2 + i]).count_ones()).sum(); let m = n as f64 / s.items_count as f64; assert!((m - s.score).abs() < 1e-6, "{} {:?}", m, s); assert!(s.score < 10.0); } }
'''
bug("C05-gap", [(M, "        if self.offset1 + self.items_count != other.offset1 {\n            return None;\n        }\n\n        if self.offset2 + self.items_count != other.offset2 {", "        if other.offset1 < self.offset1 + self.items_count {\n            return None;\n        }\n\n        if other.offset2 < self.offset2 + self.items_count {")],
    "two similar pieces separated by a rejected piece", "pieces are joined across the gap, so the score is not that of the covered items",
    (M, CHK + '''
    #[test]
    fn t() {
        ''' + RND + '''
        for k in 0..300u32 {
            let a: Vec<u32> = (0..160).map(|_| rnd()).collect();
            let mut b = a.clone();
            for i in 60..(80 + k as usize % 30) { b[i] = !b[i]; }
            for i in 110..160 { b[i] ^= 1 << (i % 20); }
            chk(&a, &b);
        }
    }'''))
bug("C05-ten", [(M, "            if score < match_threshold {", "            if score <= match_threshold {")],
    "a piece with a mean of exactly 10 differing bits", "a segment of score 10 is returned",
    (M, CHK + '''
    #[test]
    fn t() { let a: Vec<u32> = (0..64u32).map(|i| i << 20).collect(); let b: Vec<u32> = a.iter().map(|x| x ^ 0x3ff).collect(); chk(&a, &b); }'''))
bug("C05-weights", [(M, "        let new_score = (self.score * self.items_count as f64\n            + other.score * other.items_count as f64)\n            / new_duration as f64;", "        let new_score = self.score\n            + (other.score - self.score) * (other.items_count as f64 / new_duration as f64).max(0.5);")],
    "pieces of similar score joined, the second one shorter than the first", "the score of the joined segment is the plain mean of the two",
    (M, '''
    #[test]
    fn t() {
        let a = Segment { offset1: 0, offset2: 3, items_count: 30, score: 1.0 };
        let b = Segment { offset1: 30, offset2: 33, items_count: 10, score: 1.4 };
        let m = a.try_merge(&b).unwrap();
        assert!((m.score - 1.1).abs() < 1e-9);
    }'''))
bug("C06-cap", [(M, "        for item2 in offsets.iter().skip(offset_idx + 1) {", "        for item2 in offsets.iter().skip(offset_idx + 1).take(4096) {")],
    "more than 4096 items with the same 12-bit hash", "coinciding pairs beyond the cap are not counted",
    (M, '''
    #[test]
    fn t() { let v = vec![0u32; 5000]; let s = match_fingerprints(&v, &v, &Configuration::default()).unwrap(); assert_eq!(s.len(), 1); assert_eq!((s[0].offset1, s[0].offset2, s[0].items_count), (0, 0, 5000)); }'''))
bug("C06-tie", [(M, "    best_alignments.sort_unstable_by_key(|it| Reverse(*it));", "    best_alignments.sort_unstable();\n    best_alignments.reverse();\n    let best_count = best_alignments.first().map_or(0, |it| it.0);\n    best_alignments.retain(|it| it.0 == best_count);\n    if best_alignments.len() > 2 {\n        best_alignments.reverse();\n    }")],
    "three or more alignments that tie for the highest count", "the smallest offset is used instead of the largest",
    (M, '''
    #[test]
    fn t() {
        let p = [0x1110_0000u32, 0x2220_0000, 0x3330_0000];
        let mut a = vec![]; for _ in 0..3 { a.extend(p); a.extend([0x9990_0000u32, 0xaaa0_0000]); }
        let s = match_fingerprints(&a, &p, &Configuration::default()).unwrap();
        assert_eq!(s[0].offset1, 10);
    }'''))
A = "audio_processor.rs"
NOISE = "let noise = |n: usize| -> Vec<i16> { let mut z = 99u64; (0..n).map(|i| { z ^= z << 13; z ^= z >> 7; z ^= z << 17; ((z as i16) / 8) + ((i as f64 * (0.02 + (i / 4000) as f64 * 0.013)).sin() * 8000.0) as i16 }).collect() };"
bug("C07-empty", [(A, "        assert_eq!(data.len() % self.channels as usize, 0);\n\n        let mut index = 0;", "        assert_eq!(data.len() % self.channels as usize, 0);\n\n        if data.is_empty() && self.buffer_offset > 0 {\n            self.resample(true);\n        }\n        let mut index = 0;")],
    "an empty call in the middle of a stream that is resampled", "the buffered samples are resampled as if the stream ended there",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(400_000);
        let run = |cut: bool| { let mut p = Fingerprinter::new(&Configuration::default()); p.start(44100, 1).unwrap(); for c in s.chunks(10_007) { p.consume(c); if cut { p.consume(&[]); } } p.finish(); p.fingerprint().to_vec() };
        assert_eq!(run(false), run(true));
    }'''))
bug("C07-direct", [(A, "        let mut index = 0;\n        while index < data.len() {", "        let mut index = 0;\n        if self.channels == 1 && self.resampler.is_none() && data.len() > self.buffer.len() {\n            // large mono blocks need no buffering\n            let block: Vec<f64> = data.iter().map(|&s| f64::from(s) / f64::from(i16::MAX)).collect();\n            self.consumer.consume(&block);\n            index = data.len();\n        }\n        while index < data.len() {")],
    "a mono stream at the target rate with a small call followed by one of more than 32768 samples", "the large block overtakes the samples still buffered",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(120_000);
        let run = |cut: usize| { let mut p = Fingerprinter::new(&Configuration::default()); p.start(11025, 1).unwrap(); p.consume(&s[..cut]); p.consume(&s[cut..]); p.finish(); p.fingerprint().to_vec() };
        assert_eq!(run(0), run(20_000));
    }'''))
bug("C08-buffer", [(A, "        self.channels = channels;\n        self.buffer_offset = 0;", "        if self.channels != channels {\n            self.buffer_offset = 0;\n        }\n        self.channels = channels;")],
    "a stream that was not finished followed by one with the same channel count", "buffered samples of the abandoned stream precede the new one",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(120_000);
        let mut p = Fingerprinter::new(&Configuration::default()); p.start(11025, 1).unwrap(); p.consume(&s[5000..9001]);
        p.start(11025, 1).unwrap(); p.consume(&s); p.finish();
        let mut q = Fingerprinter::new(&Configuration::default()); q.start(11025, 1).unwrap(); q.consume(&s); q.finish();
        assert_eq!(p.fingerprint(), q.fingerprint());
    }'''))
bug("C08-filter", [("chroma_filter.rs", "        self.buffer_size = 1;\n        self.buffer_offset = 0;\n        self.consumer.reset();", "        self.buffer_size = self.coefficients.len().min(self.buffer_size.max(2) - 1).max(1);\n        self.buffer_offset = 0;\n        self.consumer.reset();")],
    "a fingerprinter restarted after at least three feature rows", "the temporal filter of the new stream starts before it is filled, mixing in old rows",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(120_000);
        let mut p = Fingerprinter::new(&Configuration::default()); p.start(11025, 1).unwrap(); p.consume(&s[5000..]); p.finish();
        p.start(11025, 1).unwrap(); p.consume(&s); p.finish();
        let mut q = Fingerprinter::new(&Configuration::default()); q.start(11025, 1).unwrap(); q.consume(&s); q.finish();
        assert_eq!(p.fingerprint(), q.fingerprint());
    }'''))
REC = '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl AudioConsumer<f64> for Rec { fn reset(&mut self) { self.0.clear() } fn consume(&mut self, d: &[f64]) { self.0.extend_from_slice(d) } fn flush(&mut self) {} }
'''
bug("C09-shift", [(A, "self.push_sample(((i32::from(sample[0]) + i32::from(sample[1])) / 2) as i16);", "self.push_sample(((i32::from(sample[0]) + i32::from(sample[1])) >> 1) as i16);")],
    "a stereo frame with a negative odd sum", "the average is rounded down instead of toward zero",
    (A, REC + '''
    #[test]
    fn t() { let mut p = AudioProcessor::new(11025, Rec(vec![])); p.reset(11025, 2).unwrap(); p.consume(&[-3, 0, 3, 0, -1, 0]); p.flush(); let r: Vec<f64> = p.output().iter().map(|x| (x * 32767.0).round()).collect(); assert_eq!(r, vec![-1.0, 1.0, 0.0]); }'''))
bug("C09-flush", [(A, "        if self.buffer_offset > 0 {\n            self.resample(true);", "        if self.buffer_offset > 1 {\n            self.resample(true);")],
    "a stream whose length is one more than a multiple of the buffer size (32768 frames)", "the last sample is never passed on",
    (A, REC + '''
    #[test]
    fn t() { let mut p = AudioProcessor::new(11025, Rec(vec![])); p.reset(11025, 1).unwrap(); p.consume(&vec![7i16; MAX_BUFFER_SIZE + 1]); p.flush(); assert_eq!(p.output().len(), MAX_BUFFER_SIZE + 1); }'''))
bug("C10-order", [(A, "        if channels == 0 {\n            return Err(ResetError::NoChannels);\n        }\n\n        if sample_rate <= MIN_SAMPLE_RATE {\n            return Err(ResetError::SampleRateTooLow);\n        }\n\n        self.channels = channels;", "        self.channels = channels;\n        if channels == 0 {\n            return Err(ResetError::NoChannels);\n        }\n\n        if sample_rate <= MIN_SAMPLE_RATE {\n            return Err(ResetError::SampleRateTooLow);\n        }\n")],
    "a failed start with another channel count while a stream is in progress", "the rest of the stream is read with the other channel count",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        ''' + NOISE + '''
        let s = noise(200_000);
        let run = |f: bool| { let mut p = Fingerprinter::new(&Configuration::default()); p.start(11025, 1).unwrap(); p.consume(&s[..100_000]); if f { assert!(p.start(500, 2).is_err()); } p.consume(&s[100_000..]); p.finish(); p.fingerprint().to_vec() };
        assert_eq!(run(false), run(true));
    }'''))
bug("C10-zero", [(A, "        if channels == 0 {\n            return Err(ResetError::NoChannels);\n        }\n\n        if sample_rate <= MIN_SAMPLE_RATE {\n            return Err(ResetError::SampleRateTooLow);\n        }\n", "        if sample_rate <= MIN_SAMPLE_RATE {\n            return Err(ResetError::SampleRateTooLow);\n        }\n\n        if channels == 0 {\n            return Err(ResetError::NoChannels);\n        }\n")],
    "no channels and a rate of at most 1000 Hz at once", "the rate error is reported",
    (A, REC + '''
    #[test]
    fn t() { let mut p = AudioProcessor::new(11025, Rec(vec![])); assert!(matches!(p.reset(800, 0), Err(ResetError::NoChannels))); }'''))
bug("C11-cap", [("fft.rs", "        while self.ring_buf.len() >= self.frame_size {\n            let window", "        let mut budget = 24;\n        while self.ring_buf.len() >= self.frame_size && budget > 0 {\n            budget -= 1;\n            let window")],
    "a long stream (about ten minutes) or a configuration with a smaller hop", "frames are left unprocessed at the end, so items are missing",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        let c = Configuration::preset_test5();
        let n = 32768 * 4;
        let mut p = Fingerprinter::new(&c); p.start(11025, 1).unwrap(); p.consume(&vec![3i16; n]); p.finish();
        let frames = (n - c.frame_size) / (c.frame_size - c.frame_overlap) + 1;
        assert_eq!(p.fingerprint().len(), frames - 4 - 15);
    }'''))
bug("C11-exact", [("fft.rs", "        while self.ring_buf.len() >= self.frame_size {\n            let window", "        while self.ring_buf.len() > self.frame_size {\n            let window")],
    "a stream that ends exactly at the end of a frame", "the last frame is not analysed",
    ("fingerprinter.rs", '''
    #[test]
    fn t() {
        let c = Configuration::preset_test2();
        let n = 4096 + 1365 * 25;
        let mut p = Fingerprinter::new(&c); p.start(11025, 1).unwrap(); p.consume(&vec![3i16; n]); p.finish();
        assert_eq!(p.fingerprint().len(), 26 - 4 - 15);
    }'''))
bug("C13-half", [("filter.rs", "    let w_2 = w / 2;\n\n    let a = image.area(x + w_2, y, x + w, y + h);", "    let w_2 = (w + 1) / 2;\n\n    let a = image.area(x + w_2, y, x + w, y + h);")],
    "a Filter2 of odd width (custom classifiers)", "the middle column counts to the negative half",
    ("filter.rs", '''
    struct Img;
    impl Image for Img { fn area(&self, x: usize, y: usize, w: usize, h: usize) -> f64 { let mut s = 0.0; for i in x..w { for j in y..h { s += (i * 100 + j * j) as f64; } } s } }
    #[test]
    fn t() { let im = Img; let want = ((1.0 + im.area(3, 1, 6, 3)) / (1.0 + im.area(2, 1, 3, 3))).ln(); let w = filter2(&im, 2, 1, 3, 2, subtract_log); let v = ((1.0 + im.area(3, 1, 5, 3)) / (1.0 + im.area(2, 1, 3, 3))).ln(); let _ = want; assert!((w - v).abs() < 1e-12); }'''))
bug("C14-equal", [("quantize.rs", "        } else if val < self.t2 {", "        } else if val <= self.t2 && self.t1 < self.t2 {")],
    "a filter value exactly equal to the upper threshold", "it is quantized to 2 instead of 3",
    ("quantize.rs", '''
    #[test]
    fn t() { assert_eq!(Quantizer::new(0.0, 0.5, 1.0).quantize(1.0), 3); }'''))
bug("C15-short", [("gaussian.rs", "        for _ in 0..size {\n            out.push(sum / w as f64);", "        for _ in 0..size {\n            out.push(sum / w.min(2 * size) as f64);")],
    "a window more than twice as wide as the sequence", "the window sum is divided by too small a number",
    ("gaussian.rs", '''
    #[test]
    fn t() { let mut o = vec![0.0; 2]; box_filter(&[1.0, 1.0], &mut o, 7); assert!((o[0] - 1.0).abs() < 1e-12); }'''))
bug("C15-copy", [("gaussian.rs", "    for _ in m..n {\n        box_filter(data1, data2, wu);\n        std::mem::swap(&mut data1, &mut data2);\n    }\n\n    if data1.as_ptr() != output.as_ptr() {", "    for _ in m..n {\n        box_filter(data1, data2, wu);\n        std::mem::swap(&mut data1, &mut data2);\n    }\n\n    if m != 2 && data1.as_ptr() != output.as_ptr() {")],
    "an even number of passes of which two use the narrower window", "the result stays in the input buffer",
    ("gaussian.rs", '''
    #[test]
    fn t() {
        let run = |sigma: f64, n: usize| { let mut i: Vec<f64> = (0..40).map(|x| (x % 7) as f64).collect(); let mut o = vec![-1000.0; 40]; gaussian_filter(&mut i, &mut o, sigma, n); o };
        for n in 1..8 { for s in 1..40 { let o = run(s as f64 * 0.3, n); assert!(o.iter().all(|x| *x >= 0.0 && *x <= 6.0)); let sum: f64 = o.iter().sum(); assert!(sum > 1.0); let raw: Vec<f64> = (0..40).map(|x| (x % 7) as f64).collect(); if s > 6 { let tv = |v: &[f64]| v.windows(2).map(|w| (w[0] - w[1]).abs()).sum::<f64>(); assert!(tv(&o) < 0.9 * tv(&raw)); } } }
        for s in [1.2f64, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 8.0] { for n in [2usize, 4, 6] {
            let w = (12.0 * s * s / n as f64 + 1.0).sqrt().floor() as usize; let wl = w - (w % 2 == 0) as usize; let f = wl as f64;
            let m = ((12.0 * s * s - n as f64 * f * f - 4.0 * n as f64 * f - 3.0 * n as f64) / (-4.0 * f - 4.0)).round() as usize;
            let mut a: Vec<f64> = (0..40).map(|x| (x % 7) as f64).collect();
            for k in 0..n { let mut b = vec![0.0; 40]; box_filter(&a, &mut b, if k < m { wl } else { wl + 2 }); a = b; }
            let o = run(s, n); for (x, y) in a.iter().zip(&o) { assert!((x - y).abs() < 1e-9, "{s} {n}"); } } }
    }'''))
bug("C16-wrap", [("chroma.rs", "                    note2 = (note + NUM_BANDS - 1) % NUM_BANDS;", "                    note2 = note.saturating_sub(1);")],
    "interpolation enabled and a spectrum line in the lower half of band 0", "the neighbouring share stays in band 0 instead of going to band 11",
    ("chroma.rs", '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl FeatureVectorConsumer for Rec { fn consume(&mut self, f: &[f64]) { self.0 = f.to_vec(); } fn reset(&mut self) {} }
    #[test]
    fn t() {
        let mut c = Chroma::new(28, 3520, 4096, 11025, Rec(vec![])).with_interpolation(true);
        let mut seen = false;
        for i in c.min_index..c.max_index { if c.notes[i] == 0 && c.notes_frac[i] < 0.4 { seen = true; let mut f = vec![0.0; 2049]; f[i] = 1.0; c.consume(&f); assert!(c.consumer.0[11] > 0.05); } }
        assert!(seen);
    }'''))
bug("C16-top", [("chroma.rs", "        self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);", "        self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 4);")],
    "a spectrum with energy above a quarter of the sample rate", "lines between 2756 Hz and 3520 Hz are dropped",
    ("chroma.rs", '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl FeatureVectorConsumer for Rec { fn consume(&mut self, f: &[f64]) { self.0 = f.to_vec(); } fn reset(&mut self) {} }
    #[test]
    fn t() { let mut c = Chroma::new(28, 3520, 4096, 11025, Rec(vec![])); let mut f = vec![0.0; 2049]; f[1200] = 5.0; c.consume(&f); assert!((c.consumer.0.iter().sum::<f64>() - 5.0).abs() < 1e-9); }'''))
CF = '''
    struct Rec(Vec<Vec<f64>>);
    impl Stage for Rec { type Output = Vec<Vec<f64>>; fn output(&self) -> &Vec<Vec<f64>> { &self.0 } }
    impl FeatureVectorConsumer for Rec { fn consume(&mut self, f: &[f64]) { self.0.push(f.to_vec()); } fn reset(&mut self) { self.0.clear() } }
    fn chk(co: Vec<f64>, n: usize) {
        let mut c = ChromaFilter::new(co.clone().into_boxed_slice(), Rec(vec![]));
        let rows: Vec<Vec<f64>> = (0..n).map(|r| (0..12).map(|b| ((r * 7 + b * 3) % 11) as f64).collect()).collect();
        for r in &rows { c.consume(r); }
        assert_eq!(c.output().len(), n + 1 - co.len());
        for (k, o) in c.output().iter().enumerate() { for b in 0..12 { let w: f64 = (0..co.len()).map(|j| rows[k + j][b] * co[j]).sum(); assert!((w - o[b]).abs() < 1e-9, "row {k} band {b}"); } }
    }
'''
bug("C17-eight", [("chroma_filter.rs", "            let offset = (self.buffer_offset + self.buffer.len() - self.coefficients.len())\n                % self.buffer.len();", "            let offset = (self.buffer_offset + self.buffer.len() - self.coefficients.len())\n                .min(2 * self.buffer.len() - 6)\n                % self.buffer.len();")],
    "filters of one to four coefficients after the row buffer has wrapped", "rows other than the most recent ones are weighted",
    ("chroma_filter.rs", CF + '''
    #[test]
    fn t() { for n in 1..9 { chk((1..=n).map(|x| x as f64).collect(), 40); } }'''))
bug("C17-count", [("chroma_filter.rs", "        if self.buffer_size >= self.coefficients.len() {\n            let offset", "        if self.buffer_size >= self.coefficients.len() && self.coefficients.len() < self.buffer.len() {\n            let offset")],
    "a filter with the maximum of eight coefficients", "nothing is passed on",
    ("chroma_filter.rs", CF + '''
    #[test]
    fn t() { for n in 1..9 { chk((1..=n).map(|x| x as f64).collect(), 40); } }'''))
CN = '''
    struct Rec(Vec<f64>);
    impl Stage for Rec { type Output = Vec<f64>; fn output(&self) -> &Vec<f64> { &self.0 } }
    impl FeatureVectorConsumer for Rec { fn consume(&mut self, f: &[f64]) { self.0 = f.to_vec(); } fn reset(&mut self) {} }
'''
bug("C18-sign", [("chroma_normalizer.rs", "            *x /= norm;", "            *x = (*x / norm).clamp(-0.5, 1.0);")],
    "a vector with a strongly negative component", "the component is cut, so the output is not the input divided by its norm",
    ("chroma_normalizer.rs", CN + '''
    #[test]
    fn t() { let mut n = ChromaNormalizer::new(Rec(vec![])); n.consume(&[-3.0, 4.0]); assert!((n.output()[0] + 0.6).abs() < 1e-12); }'''))
bug("C18-eps", [("chroma_normalizer.rs", "    let norm = values.iter().fold(0.0, |acc, &x| acc + x.powi(2)).sqrt();", "    let norm = values.iter().fold(0.0, |acc, &x| if x.abs() < 0.001 { acc } else { acc + x.powi(2) }).sqrt();")],
    "a vector with components below 0.001 next to larger ones", "the small components do not count, so the norm of the output is not 1",
    ("chroma_normalizer.rs", CN + '''
    #[test]
    fn t() { let mut n = ChromaNormalizer::new(Rec(vec![])); let mut v = vec![0.0009; 100]; v[0] = 0.01; n.consume(&v); let s: f64 = n.output().iter().map(|x| x * x).sum(); assert!((s - 1.0).abs() < 1e-9, "{s}"); }'''))
bug("C19-widest", [("fingerprinter.rs", "            .map(|c| c.filter().width())\n            .max()\n            .unwrap_or(0);\n        self.classifiers", "            .map(|c| c.filter().width())\n            .take(8)\n            .max()\n            .unwrap_or(0);\n        self.classifiers")],
    "a configuration whose widest classifier is not among the first eight (preset_test2)", "the delay is too small",
    ("fingerprinter.rs", '''
    #[test]
    fn t() { for c in [Configuration::preset_test1(), Configuration::preset_test2(), Configuration::preset_test5()] { let w = c.classifiers.iter().map(|x| x.filter().width()).max().unwrap(); assert_eq!(c.delay(), (4 + w - 1) * (c.frame_size - c.frame_overlap) + c.frame_overlap); } }'''))
bug("C19-threshold", [("fingerprinter.rs", "        self.classifiers = classifiers;\n        self", "        self.classifiers = classifiers;\n        self.filter_coefficients.truncate(self.max_filter_width.max(1));\n        self")],
    "coefficients set before narrow classifiers", "coefficients are silently dropped, so the delay is not that of the configuration",
    ("fingerprinter.rs", '''
    #[test]
    fn t() { let c = Configuration::preset_test2().with_classifiers(vec![Classifier::new(Filter::new(FilterKind::Filter0, 0, 1, 2), Quantizer::new(0.0, 1.0, 2.0))]); assert_eq!(c.delay(), (4 + 1) * 1365 + 2731); }'''))
bug("C20-end2", [(M, "        self.start2(config) + self.duration(config)", "        self.start2(config).max(self.start1(config)) + self.duration(config)")],
    "a segment that starts later in the first stream", "its end in the second stream is not its start plus its duration",
    (M, '''
    #[test]
    fn t() { let s = Segment { offset1: 100, offset2: 0, items_count: 10, score: 0.0 }; let c = Configuration::default(); assert_eq!(s.end2(&c), s.start2(&c) + s.duration(&c)); }'''))
bug("C20-trunc", [(M, "        config.item_duration_in_seconds() * self.offset2 as f32", "        config.item_duration_in_seconds() * self.offset2 as u16 as f32")],
    "an offset of 65536 items or more", "the start time wraps around",
    (M, '''
    #[test]
    fn t() { let s = Segment { offset1: 0, offset2: 70000, items_count: 10, score: 0.0 }; let c = Configuration::default(); assert_eq!(s.start2(&c), c.item_duration_in_seconds() * 70000.0); }'''))
FP = '''#!/bin/bash
# runs fpcalc on a generated file
h=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/target" cargo build --offline -q -p fpcalc || exit 3
python3 "$h/demo.py" "$d" "$d/target/debug/fpcalc"
'''
PY = '''
import sys, struct, subprocess, math, random
d, b = sys.argv[1:3]
random.seed(5)
def wav(n, s, rate=8000):
    p = "%s/%s.wav" % (d, n)
    raw = b"".join(struct.pack("<h", x) for x in s)
    open(p, "wb").write(b"RIFF" + struct.pack("<I", 36 + len(raw)) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 1, 1, rate, rate * 2, 2, 16) + b"data" + struct.pack("<I", len(raw)) + raw)
    return p
def run(*a):
    r = subprocess.run([b, "-R", "-F", "plain"] + [str(x) for x in a], stdout=subprocess.PIPE)
    assert r.returncode == 0
    return r.stdout.decode().strip("\\n").split("\\n")
s = [int(9000 * math.sin(i * (0.05 + (i // 2500) * 0.011))) + random.randrange(-900, 900) for i in range(8000 * 40)]
'''
bug("C21-extra", [("fpcalc/src/main.rs", "                    extra_chunk_limit = 0;\n                    first_chunk = false;", "                    first_chunk = false;")],
    "chunks with overlap and a stream of at least two chunks", "every chunk is longer than requested, not only the first", prop="C21",
    demo_sh=FP)
BUGS[-1]["files"] = {"demo.py": PY + '''
delay = 5455 + 18 * 1365 - 18 * 1365
f = wav("a", s)
got = run("-l", 0, "-C", 6, "-o", "-a", 1, f)
first = 6 * 8000 + (4 + 15) * 1365 + 2731
want = run("-l", 0, "-a", 1, wav("b", s[first:first + 48000]))
sys.exit(0 if got[1] == want[0] else 1)
'''}
bug("C21-limit", [("fpcalc/src/main.rs", "                let remaining = stream_limit - stream_size;\n                let frame_size = audio_buf.frames();\n                (frame_size > remaining, frame_size.min(remaining))", "                let frame_size = audio_buf.frames();\n                (stream_size + frame_size > stream_limit, frame_size)")],
    "a file longer than the length limit where the limit is not at the end of a packet", "the whole packet that contains the limit is fingerprinted", prop="C21",
    demo_sh=FP)
BUGS[-1]["files"] = {"demo.py": PY + '''
# a limit just short of the frame that yields the next item
for k in range(4, 12):
    got = run("-l", k, "-a", 4, wav("a", s, 11025))
    want = run("-l", 0, "-a", 4, wav("b", s[:11025 * k], 11025))
    if got != want: sys.exit(1)
sys.exit(0)
'''}
bug("C22-days", [("compare/src/utils.rs", "        let hours = total_secs / 3600;", "        let hours = total_secs / 3600 % 100;")],
    "a duration of 100 hours or more", "the hours wrap around",
    ("compare/src/utils.rs", '''
    #[test]
    fn t() { assert_eq!(format!("{}", 720000.0f32.display_duration()), "200:00:00.00"); }'''))
bug("C22-half", [("compare/src/utils.rs", "DurationDisplay((self * 100.0).round() as _)", "DurationDisplay((self * 100.0 + 0.5) as _)")],
    "a duration above 83886 seconds", "adding one half in single precision rounds up to the next even hundredth",
    ("compare/src/utils.rs", '''
    #[test]
    fn t() { for k in 0..200u32 { let x = 90000.0f32 + k as f32 * 0.0078125; let c = (x as f64 * 100.0).round() as u64; let s = (x * 100.0).round() as u64; let f = |c: u64| format!("{}:{:02}:{:02}.{:02}", c / 360000, c / 6000 % 60, c / 100 % 60, c % 100); let g = format!("{}", x.display_duration()); assert!(g == f(c) || g == f(s), "{x} {g}"); } }'''))
