EDITS = [
("roll-1", "rolling_image", [("""        let mut sum = 0.0;
        for (i, &cell) in row.iter().enumerate().take(self.columns) {
            sum += cell.into();
            self.row_mut(self.rows)[i] = sum;
        }

        if self.rows > 0 {
            for i in 0..self.columns {
                self.row_mut(self.rows)[i] += self.row(self.rows - 1)[i];
            }
        }

        self.rows += 1;
""", """        let current = self.rows;
        let mut sum = 0.0;
        for i in 0..self.columns {
            sum += row[i].into();
            let above = if current > 0 {
                self.row(current - 1)[i]
            } else {
                0.0
            };
            self.row_mut(current)[i] = sum + above;
        }

        self.rows = current + 1;
""")]),
("roll-2", "rolling_image", [("""    fn row(&self, mut i: usize) -> &[f64] {
        i %= self.max_rows;
        &self.data[i * self.columns..][..self.columns]
    }

    fn row_mut(&mut self, mut i: usize) -> &mut [f64] {
        i %= self.max_rows;
        &mut self.data[i * self.columns..][..self.columns]
    }
""", """    fn row_start(&self, i: usize) -> usize {
        (i % self.max_rows) * self.columns
    }

    fn row(&self, i: usize) -> &[f64] {
        let start = self.row_start(i);
        &self.data[start..start + self.columns]
    }

    fn row_mut(&mut self, i: usize) -> &mut [f64] {
        let start = self.row_start(i);
        &mut self.data[start..start + self.columns]
    }
""")]),
("roll-3", "rolling_image", [("""        self.data.clear();
        self.rows = 0;
        self.columns = 0;
""", """        self.columns = 0;
        self.rows = 0;
        self.data = Vec::new();
""")]),
("roll-4", "rolling_image", [("""        if r1 == r2 || c1 == c2 {
            return 0.0;
        }
""", """        let is_empty = c1 == c2 || r1 == r2;
        if is_empty {
            return 0.0;
        }
""")]),
("roll-5", "rolling_image", [("""        if self.rows > 0 {
            for i in 0..self.columns {
                self.row_mut(self.rows)[i] += self.row(self.rows - 1)[i];
            }
        }
""", """        if self.rows > 0 {
            self.accumulate_previous_row();
        }
"""), ("    pub(crate) fn rows(&self)", """    fn accumulate_previous_row(&mut self) {
        for i in 0..self.columns {
            let above = self.row(self.rows - 1)[i];
            self.row_mut(self.rows)[i] += above;
        }
    }

    pub(crate) fn rows(&self)""")]),
("gauss-1", "gaussian", [("""    for _ in 0..m {
        box_filter(data1, data2, wl);
        std::mem::swap(&mut data1, &mut data2);
    }

    for _ in m..n {
        box_filter(data1, data2, wu);
        std::mem::swap(&mut data1, &mut data2);
    }
""", """    for pass in 0..n.max(m) {
        let width = if pass < m { wl } else { wu };
        box_filter(data1, data2, width);
        std::mem::swap(&mut data1, &mut data2);
    }
""")]),
("gauss-2", "gaussian", [("""    let wl = w - (w % 2 == 0) as usize;
    let wu = wl + 2;
""", """    let wl = if w % 2 == 0 { w - 1 } else { w };
    let wu = wl + 2;
""")]),
("gauss-3", "gaussian", [("""    for _ in 0..wl {
        it1.move_back();
        it2.move_back();
    }

    let mut sum = 0.0;
    for _ in 0..w {
        sum += input[it2.pos];
        it2.move_forward();
    }

    let mut out = SliceWriter::new(output);
""", """    let mut out = SliceWriter::new(output);

    for _ in 0..wl {
        it1.move_back();
    }
    for _ in 0..wl {
        it2.move_back();
    }

    let mut sum = 0.0;
    let mut taken = 0;
    while taken < w {
        sum += input[it2.pos];
        it2.move_forward();
        taken += 1;
    }
""")]),
("gauss-4", "gaussian", [("""    if size > w {
        for _ in 0..wl {
            out.push(sum / w as f64);
            sum += input[it2.pos] - input[it1.pos];
            it1.move_forward();
            it2.move_forward();
        }
        for _ in 0..size - w - 1 {
            out.push(sum / w as f64);
            sum += input[it2.pos] - input[it1.pos];
            it2.pos += 1;
            it1.pos += 1;
        }
        for _ in 0..wr + 1 {
            out.push(sum / w as f64);
            sum += input[it2.pos] - input[it1.pos];
            it1.move_forward();
            it2.move_forward();
        }
    } else {
        for _ in 0..size {
            out.push(sum / w as f64);
            sum += input[it2.pos] - input[it1.pos];
            it1.move_forward();
            it2.move_forward();
        }
    }
""", """    for _ in 0..size {
        out.push(sum / w as f64);
        sum += input[it2.pos] - input[it1.pos];
        it1.move_forward();
        it2.move_forward();
    }
"""), ("    let wr = w - wl;\n", "")]),
("gauss-5", "gaussian", [("""        if self.forward {
            if self.pos + 1 == self.size {
                self.forward = false;
            } else {
                self.pos += 1;
            }
        } else if self.pos == 0 {
            self.forward = true;
        } else {
            self.pos -= 1;
        }""", """        match (self.forward, self.pos) {
            (true, pos) if pos + 1 == self.size => self.forward = false,
            (true, _) => self.pos += 1,
            (false, 0) => self.forward = true,
            (false, _) => self.pos -= 1,
        }""")]),
("gauss-6", "gaussian", [("        self.slice[self.index] = value;\n        self.index += 1;", "        let index = self.index;\n        self.slice[index] = value;\n        self.index = index + 1;")]),
("gauss-7", "gaussian", [("""        for _ in 0..size - w - 1 {
            out.push(sum / w as f64);
            sum += input[it2.pos] - input[it1.pos];
            it2.pos += 1;
            it1.pos += 1;
        }""", """        for _ in 0..size - w - 1 {
            let mean = sum / w as f64;
            out.push(mean);
            sum += input[it2.pos] - input[it1.pos];
            it1.pos += 1;
            it2.pos += 1;
        }""")]),
("grad-1", "gradient", [("""                for next in iter {
                    f0 = f1;
                    f1 = f2;
                    f2 = next;
                    output.push((f2 - f0) / 2.0);
                }
""", """                while let Some(next) = iter.next() {
                    (f0, f1, f2) = (f1, f2, next);
                    output.push((f2 - f0) / 2.0);
                }
""")]),
("grad-2", "gradient", [("""pub fn gradient(mut iter: impl Iterator<Item = f64>, output: &mut Vec<f64>) {
    if let Some(mut f0) = iter.next() {
        if let Some(mut f1) = iter.next() {
            output.push(f1 - f0);
            if let Some(mut f2) = iter.next() {
                output.push((f2 - f0) / 2.0);
                for next in iter {
                    f0 = f1;
                    f1 = f2;
                    f2 = next;
                    output.push((f2 - f0) / 2.0);
                }
                output.push(f2 - f1);
            } else {
                output.push(f1 - f0);
            }
        } else {
            output.push(0.0);
        }
    }
}""", """pub fn gradient(mut iter: impl Iterator<Item = f64>, output: &mut Vec<f64>) {
    let Some(mut f0) = iter.next() else {
        return;
    };
    let Some(mut f1) = iter.next() else {
        output.push(0.0);
        return;
    };
    output.push(f1 - f0);
    for f2 in iter {
        output.push((f2 - f0) / 2.0);
        f0 = f1;
        f1 = f2;
    }
    output.push(f1 - f0);
}""")]),
("grad-3", "gradient", [("""                for next in iter {
                    f0 = f1;""", """                for next in iter {
                    let _keep = f0;
                    f0 = f1;""")]),
("match-1", "fingerprint_matcher", [("""    let mut offsets = Vec::with_capacity(fp1.len() + fp2.len());
    for (i, &segment) in fp1.iter().enumerate() {
        offsets.push((align_strip(segment) << HASH_SHIFT) | (i as u32));
    }

    for (i, &segment) in fp2.iter().enumerate() {
        offsets.push((align_strip(segment) << HASH_SHIFT) | (i as u32) | SOURCE_MASK);
    }
    offsets.sort_unstable();
""", """    let mut offsets = build_offsets(fp1, fp2);
    offsets.sort_unstable();
"""), ("fn align_strip(", """fn build_offsets(fp1: &[u32], fp2: &[u32]) -> Vec<u32> {
    let mut offsets = Vec::with_capacity(fp1.len() + fp2.len());
    for (i, &segment) in fp1.iter().enumerate() {
        offsets.push((align_strip(segment) << HASH_SHIFT) | (i as u32));
    }
    for (i, &segment) in fp2.iter().enumerate() {
        offsets.push((align_strip(segment) << HASH_SHIFT) | (i as u32) | SOURCE_MASK);
    }
    offsets
}

fn align_strip(""")]),
("match-2", "fingerprint_matcher", [("""        let count = histogram[i];
        if histogram[i] > 1 {
            let is_peak_left = if i > 0 {
                histogram[i - 1] <= count
            } else {
                true
            };
            let is_peak_right = if i < histogram_size - 1 {
                histogram[i + 1] <= count
            } else {
                true
            };
            if is_peak_left && is_peak_right {
                best_alignments.push((count, i));
            }
        }
""", """        let count = histogram[i];
        if count <= 1 {
            continue;
        }
        let is_peak_left = i == 0 || histogram[i - 1] <= count;
        let is_peak_right = i + 1 >= histogram_size || histogram[i + 1] <= count;
        if is_peak_left && is_peak_right {
            best_alignments.push((count, i));
        }
""")]),
("match-3", "fingerprint_matcher", [("""        let offset1 = if offset_diff > 0 {
            offset_diff as usize
        } else {
            0
        };
        let offset2 = if offset_diff < 0 {
            -offset_diff as usize
        } else {
            0
        };
""", """        let (offset1, offset2) = if offset_diff >= 0 {
            (offset_diff as usize, 0)
        } else {
            (0, -offset_diff as usize)
        };
""")]),
("match-4", "fingerprint_matcher", [("""        let mut bit_counts = Vec::new();
        for i in 0..size {
            bit_counts.push((fp1[offset1 + i] ^ fp2[offset2 + i]).count_ones() as f64);
        }
""", """        let mut bit_counts: Vec<f64> = fp1[offset1..offset1 + size]
            .iter()
            .zip(&fp2[offset2..offset2 + size])
            .map(|(a, b)| (a ^ b).count_ones() as f64)
            .collect();
""")]),
("match-5", "fingerprint_matcher", [("""                let mut added = false;
                if let Some(s1) = segments.last_mut() {
                    if (s1.score - score).abs() < max_score_difference {
                        if let Some(merged) = s1.try_merge(&new_segment) {
                            *s1 = merged;
                            added = true;
                        }
                    }
                }

                if !added {
                    segments.push(new_segment);
                }
""", """                let merged = match segments.last() {
                    Some(last) if (last.score - score).abs() < max_score_difference => {
                        last.try_merge(&new_segment)
                    }
                    _ => None,
                };
                match (merged, segments.last_mut()) {
                    (Some(merged), Some(last)) => *last = merged,
                    _ => segments.push(new_segment),
                }
""")]),
("match-6", "fingerprint_matcher", [("""        // Check if segments are consecutive
        if self.offset1 + self.items_count != other.offset1 {
            return None;
        }

        if self.offset2 + self.items_count != other.offset2 {
            return None;
        }
""", """        // Check if segments are consecutive
        let consecutive1 = self.offset1 + self.items_count == other.offset1;
        let consecutive2 = self.offset2 + self.items_count == other.offset2;
        if !(consecutive1 && consecutive2) {
            return None;
        }
""")]),
("match-7", "fingerprint_matcher", [("""    if fp1.len() + 1 >= OFFSET_MASK as usize {
        return Err(MatchError::FingerprintTooLong { index: 0 });
    }

    if fp2.len() + 1 >= OFFSET_MASK as usize {
        return Err(MatchError::FingerprintTooLong { index: 1 });
    }
""", """    check_length(fp1, 0)?;
    check_length(fp2, 1)?;
"""), ("fn align_strip(", """fn check_length(fp: &[u32], index: u8) -> Result<(), MatchError> {
    if fp.len() + 1 >= OFFSET_MASK as usize {
        Err(MatchError::FingerprintTooLong { index })
    } else {
        Ok(())
    }
}

fn align_strip(""")]),
("match-8", "fingerprint_matcher", [("""    best_alignments.sort_unstable_by_key(|it| Reverse(*it));
""", ""), ("    if let Some((_count, offset)) = best_alignments.into_iter().next() {", "    if let Some((_count, offset)) = best_alignments.into_iter().max() {"), ("use std::cmp::Reverse;\n", "")]),
("match-9", "fingerprint_matcher", [("""        for i in 0..size {
            let gi = grad[i];
            if i > 0
                && i < size - 1
                && gi > 0.15
                && gi >= grad[i - 1]
                && gi >= grad[i + 1]
                && (gradient_peaks.is_empty() || gradient_peaks.last().unwrap() + 1 < i)
            {
                gradient_peaks.push(i);
            }
        }
""", """        for i in 1..size.saturating_sub(1) {
            let gi = grad[i];
            let is_peak = gi > 0.15 && gi >= grad[i - 1] && gi >= grad[i + 1];
            let is_apart = match gradient_peaks.last() {
                Some(&last) => last + 1 < i,
                None => true,
            };
            if is_peak && is_apart {
                gradient_peaks.push(i);
            }
        }
""")]),
("match-10", "fingerprint_matcher", [("""            let offset2 = item2 & OFFSET_MASK;
            let source2 = item2 & SOURCE_MASK;
            if source2 != 0 {
                let offset_diff = offset1 as usize + fp2.len() - offset2 as usize;
                histogram[offset_diff] += 1;
            }
""", """            if item2 & SOURCE_MASK == 0 {
                continue;
            }

            let offset2 = (item2 & OFFSET_MASK) as usize;
            let slot = offset1 as usize + fp2.len() - offset2;
            histogram[slot] += 1;
""")]),
("match-11", "fingerprint_matcher", [("""        let new_duration = self.items_count + other.items_count;
        let new_score = (self.score * self.items_count as f64
            + other.score * other.items_count as f64)
            / new_duration as f64;
        Some(Segment {
            offset1: self.offset1,
            offset2: self.offset2,
            items_count: new_duration,
            score: new_score,
        })""", """        let items_count = self.items_count + other.items_count;
        let total = self.score * self.items_count as f64 + other.score * other.items_count as f64;
        Some(Segment {
            items_count,
            score: total / items_count as f64,
            ..*self
        })""")]),
("match-12", "fingerprint_matcher", [("""        self.start1(config) + self.duration(config)""", """        let start = self.start1(config);
        start + self.duration(config)"""), ("        config.item_duration_in_seconds() * self.offset2 as f32", "        self.offset2 as f32 * config.item_duration_in_seconds()")]),
("match-13", "fingerprint_matcher", [("""            let score: f64 = orig_bit_counts[begin..end].iter().sum::<f64>() / (duration as f64);
            if score < match_threshold {""", """            let total: f64 = orig_bit_counts[begin..end].iter().copied().sum();
            let score = total / duration as f64;
            let is_match = score < match_threshold;
            if is_match {""")]),
("fpr-1", "fingerprinter", [("""        let normalizer =
            ChromaNormalizer::new(FingerprintCalculator::new(config.classifiers.clone()));
        let filter = ChromaFilter::new(
            config.filter_coefficients.clone().into_boxed_slice(),
            normalizer,
        );
""", """        let calculator = FingerprintCalculator::new(config.classifiers.clone());
        let normalizer = ChromaNormalizer::new(calculator);
        let coefficients = config.filter_coefficients.clone().into_boxed_slice();
        let filter = ChromaFilter::new(coefficients, normalizer);
""")]),
("fpr-2", "fingerprinter", [("""        self.processor.reset(sample_rate, channels)?;
        Ok(())""", """        self.processor.reset(sample_rate, channels)""")]),
("fpr-3", "fingerprinter", [("""        self.max_filter_width = classifiers
            .iter()
            .map(|c| c.filter().width())
            .max()
            .unwrap_or(0);
""", """        let mut widest = 0;
        for classifier in &classifiers {
            widest = widest.max(classifier.filter().width());
        }
        self.max_filter_width = widest;
""")]),
("fpr-4", "fingerprinter", [("""        ((self.filter_coefficients.len() - 1) + (self.max_filter_width - 1))
            * self.samples_in_item()
            + self.frame_overlap""", """        let rows = self.filter_coefficients.len() + self.max_filter_width - 2;
        rows * self.samples_in_item() + self.frame_overlap""")]),
("fpr-5", "fingerprinter", [("""        Self::new()
            .with_id(2)
            .with_classifiers(CLASSIFIER_TEST3.into())
            .with_coefficients(CHROMA_FILTER_COEFFICIENTS.into())
            .with_interpolation(true)
            .with_frame_size(DEFAULT_FRAME_SIZE)
            .with_frame_overlap(DEFAULT_FRAME_OVERLAP)""", """        Self::preset_with(2, &CLASSIFIER_TEST3).with_interpolation(true)"""), ("    pub fn preset_test1()", """    fn preset_with(id: u8, classifiers: &[Classifier]) -> Self {
        Self::new()
            .with_id(id)
            .with_classifiers(classifiers.to_vec())
            .with_coefficients(CHROMA_FILTER_COEFFICIENTS.to_vec())
            .with_frame_size(DEFAULT_FRAME_SIZE)
            .with_frame_overlap(DEFAULT_FRAME_OVERLAP)
    }

    pub fn preset_test1()""")]),
("fpr-6", "fingerprinter", [("            .with_frame_overlap(DEFAULT_FRAME_SIZE / 2 - DEFAULT_FRAME_SIZE / 4)", "            .with_frame_overlap(DEFAULT_FRAME_SIZE / 4)")]),
("fpc-1", "fpcalc", [("""            let (stream_done, mut frame_size) = if stream_limit > 0 {
                let remaining = stream_limit - stream_size;
                let frame_size = audio_buf.frames();
                (frame_size > remaining, frame_size.min(remaining))
            } else {
                (false, audio_buf.frames())
            };
            stream_size += frame_size;

            if frame_size == 0 {
                if stream_done {
                    break;
                } else {
                    continue;
                }
            }
""", """            let mut frame_size = audio_buf.frames();
            let mut stream_done = false;
            if stream_limit > 0 {
                let remaining = stream_limit - stream_size;
                stream_done = frame_size > remaining;
                frame_size = usize::min(frame_size, remaining);
            }
            stream_size += frame_size;

            if frame_size == 0 && stream_done {
                break;
            }
            if frame_size == 0 {
                continue;
            }
""")]),
("fpc-2", "fpcalc", [("""        let packet = loop {
            let packet = match self.format.next_packet() {
                Ok(packet) => packet,
                err => break err,
            };

            if packet.track_id() != self.track_id {
                continue;
            }

            break Ok(packet);
        };
        packet.and_then(|pkt| self.decoder.decode(&pkt))""", """        let packet = loop {
            let packet = self.format.next_packet()?;
            if packet.track_id() == self.track_id {
                break packet;
            }
        };
        self.decoder.decode(&packet)""")]),
("fpc-3", "fpcalc", [("""            if self.signed {
                // FIXME: Use `u32.case_signed()` once it becomes stable.
                raw_fingerprint
                    .iter()
                    .map(|x| *x as i32)
                    .map(|x| x.to_string())
                    .collect::<Vec<String>>()
                    .join(",")
            } else {""", """            if self.signed {
                // FIXME: Use `u32.case_signed()` once it becomes stable.
                raw_fingerprint
                    .iter()
                    .map(|&x| (x as i32).to_string())
                    .collect::<Vec<String>>()
                    .join(",")
            } else {""")]),
("fpc-4", "fpcalc", [("""        let fp = if self.raw {""", """        let fp = self.format_fingerprint(raw_fingerprint);
        self.write(&fp, first, timestamp, duration);
    }

    fn format_fingerprint(&self, raw_fingerprint: &[u32]) -> String {
        if self.raw {"""), ("""            BASE64_URL_SAFE_NO_PAD.encode(&compressed_fingerprint)
        };
""", """            BASE64_URL_SAFE_NO_PAD.encode(&compressed_fingerprint)
        }
    }

    fn write(&self, fp: &str, first: bool, timestamp: f64, duration: f64) {
""")]),
("fpc-5", "fpcalc", [("""            "text" => Ok(OutputFormat::Text),
            "json" => Ok(OutputFormat::Json),
            "plain" => Ok(OutputFormat::Plain),
            _ => Err("invalid result format"),""", """            "plain" => Ok(Self::Plain),
            "json" => Ok(Self::Json),
            "text" => Ok(Self::Text),
            _ => Err("invalid result format"),""")]),
("fpc-6", "fpcalc", [("""    let mut ts: f64 = 0.0;
    if args.ts {
        ts = get_current_timestamp();
    }
""", """    let mut ts: f64 = if args.ts { get_current_timestamp() } else { 0.0 };
""")]),
("fpc-7", "fpcalc", [("""    if chunk_limit > 0 && args.overlap {
        extra_chunk_limit = config.delay();
        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
    }
""", """    let use_overlap = args.overlap && chunk_limit > 0;
    if use_overlap {
        let delay = config.delay();
        extra_chunk_limit = delay;
        overlap = (delay as f64) * 1.0 / (sample_rate as f64) / 1000.0;
    }
""")]),
("fpc-8", "fpcalc", [("""                printer.consume(&frame_data[..first_part_size * reader.channel_count]);

                chunk_size += first_part_size;

                frame_data = &frame_data[first_part_size * reader.channel_count..];
                frame_size -= first_part_size;
""", """                let (head, tail) = frame_data.split_at(first_part_size * reader.channel_count);
                printer.consume(head);
                frame_data = tail;

                frame_size -= first_part_size;
                chunk_size += first_part_size;
""")]),
("fpc-9", "fpcalc", [("""            OutputFormat::Json => {
                if self.max_chunk_duration != 0 {
                    if self.raw {
                        println!("{{\\"timestamp\\": {timestamp:.2}, \\"duration\\": {duration:.2}, \\"fingerprint\\": [{fp}]}}");
                    } else {
                        println!("{{\\"timestamp\\": {timestamp:.2}, \\"duration\\": {duration:.2}, \\"fingerprint\\": \\"{fp}\\"}}");
                    }
                } else if self.raw {
                    println!("{{\\"duration\\": {duration:.2}, \\"fingerprint\\": [{fp}]}}");
                } else {
                    println!("{{\\"duration\\": {duration:.2}, \\"fingerprint\\": \\"{fp}\\"}}");
                }
            }
""", """            OutputFormat::Json => {
                let has_chunks = self.max_chunk_duration > 0;
                match (has_chunks, self.raw) {
                    (true, true) => println!("{{\\"timestamp\\": {timestamp:.2}, \\"duration\\": {duration:.2}, \\"fingerprint\\": [{fp}]}}"),
                    (true, false) => println!("{{\\"timestamp\\": {timestamp:.2}, \\"duration\\": {duration:.2}, \\"fingerprint\\": \\"{fp}\\"}}"),
                    (false, true) => println!("{{\\"duration\\": {duration:.2}, \\"fingerprint\\": [{fp}]}}"),
                    (false, false) => println!("{{\\"duration\\": {duration:.2}, \\"fingerprint\\": \\"{fp}\\"}}"),
                }
            }
""")]),
("fpc-10", "fpcalc", [("        self.chunk.unwrap_or(0)", "        match self.chunk {\n            Some(chunk) => chunk,\n            None => 0,\n        }")]),
("cmp-1", "compare", [("""        let packet = match format.next_packet() {
            Ok(packet) => packet,
            Err(_) => break,
        };

        if packet.track_id() != track_id {
            continue;
        }
""", """        let Ok(packet) = format.next_packet() else {
            break;
        };
        if packet.track_id() != track_id {
            continue;
        }
""")]),
("cmp-2", "compare", [("""                if sample_buf.is_none() {
                    let spec = *audio_buf.spec();
                    let duration = audio_buf.capacity() as u64;
                    sample_buf = Some(SampleBuffer::<i16>::new(duration, spec));
                }

                if let Some(buf) = &mut sample_buf {
                    buf.copy_interleaved_ref(audio_buf);
                    printer.consume(buf.samples());
                }
""", """                let buf = sample_buf.get_or_insert_with(|| {
                    SampleBuffer::<i16>::new(audio_buf.capacity() as u64, *audio_buf.spec())
                });
                buf.copy_interleaved_ref(audio_buf);
                printer.consume(buf.samples());
""")]),
("cmp-3", "compare", [("""    for (idx, segment) in segments.iter().enumerate() {
        println!(
            "{:>4} |""", """    let mut idx = 0;
    for segment in &segments {
        idx += 1;
        println!(
            "{:>4} |"""), ("            idx + 1,\n", "            idx,\n")]),
("cmp-4", "compare", [("""    #[allow(clippy::while_let_loop)]
    loop {
        let packet = match format.next_packet() {
            Ok(packet) => packet,
            Err(_) => break,
        };

""", """    while let Ok(packet) = format.next_packet() {
""")]),
("dur-1", "utils", [("""        let total_secs = self.0 / 100;
        let hours = total_secs / 3600;
        let rem = total_secs % 3600;
        let minutes = rem / 60;
        let seconds = rem % 60;
        let fraction = self.0 % 100;
""", """        let fraction = self.0 % 100;
        let total_secs = self.0 / 100;
        let seconds = total_secs % 60;
        let total_minutes = total_secs / 60;
        let minutes = total_minutes % 60;
        let hours = total_minutes / 60;
""")]),
("dur-2", "utils", [("""        write!(f, "{}:{:02}:{:02}.{:02}", hours, minutes, seconds, fraction)""", """        write!(f, "{hours}:{minutes:02}:{seconds:02}.{fraction:02}")""")]),
("dur-3", "utils", [("        DurationDisplay((self * 100.0).round() as _)", "        let hundredths = (*self * 100.0).round();\n        DurationDisplay(hundredths as u64)")]),
]
