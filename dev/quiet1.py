EDITS = [
("chroma-1", "chroma", [("""        for (i, energy) in frame
            .iter()
            .enumerate()
            .take(self.max_index)
            .skip(self.min_index)
        {
            let note""", """        for i in self.min_index..self.max_index.min(frame.len()) {
            let energy = &frame[i];
            let note""")]),
("chroma-2", "chroma", [("""                let mut note2 = note;
                let mut a = 1.0;
                if self.notes_frac[i] < 0.5 {
                    note2 = (note + NUM_BANDS - 1) % NUM_BANDS;
                    a = 0.5 + self.notes_frac[i];
                }
                if self.notes_frac[i] > 0.5 {
                    note2 = (note + 1) % NUM_BANDS;
                    a = 1.5 - self.notes_frac[i];
                }
""", """                let (note2, a) = split_energy(note, self.notes_frac[i]);
"""), ("fn freq_to_index", """fn split_energy(note: usize, frac: f64) -> (usize, f64) {
    if frac < 0.5 {
        ((note + NUM_BANDS - 1) % NUM_BANDS, 0.5 + frac)
    } else if frac > 0.5 {
        ((note + 1) % NUM_BANDS, 1.5 - frac)
    } else {
        (note, 1.0)
    }
}

fn freq_to_index""")]),
("chroma-3", "chroma", [("""            let octave = freq_to_octave(freq);
            let note = NUM_BANDS as f64 * (octave - octave.floor());
            self.notes[i] = note.floor() as u8;
            self.notes_frac[i] = note - note.floor();""", """            let octave = freq_to_octave(freq);
            let pitch_class = octave - octave.floor();
            let note = pitch_class * NUM_BANDS as f64;
            let whole = note.floor();
            self.notes_frac[i] = note - whole;
            self.notes[i] = whole as u8;""")]),
("filt-1", "chroma_filter", [("""            for i in 0..self.result.len() {
                for j in 0..self.coefficients.len() {
                    self.result[i] +=
                        self.buffer[(offset + j) % self.buffer.len()][i] * self.coefficients[j];
                }
            }
""", """            for (j, coefficient) in self.coefficients.iter().enumerate() {
                let row = &self.buffer[(offset + j) % self.buffer.len()];
                for i in 0..self.result.len() {
                    self.result[i] += row[i] * coefficient;
                }
            }
""")]),
("filt-2", "chroma_filter", [("""        if self.buffer_size >= self.coefficients.len() {
            let offset""", """        let is_ready = self.buffer_size >= self.coefficients.len();
        if is_ready {
            let offset""")]),
("filt-3", "chroma_filter", [("""            self.result.fill(0.0);
            for i in 0..self.result.len() {
                for j in 0..self.coefficients.len() {
                    self.result[i] +=
                        self.buffer[(offset + j) % self.buffer.len()][i] * self.coefficients[j];
                }
            }
""", """            for i in 0..self.result.len() {
                let mut acc = 0.0;
                for j in 0..self.coefficients.len() {
                    acc += self.buffer[(offset + j) % self.buffer.len()][i] * self.coefficients[j];
                }
                self.result[i] = acc;
            }
""")]),
("norm-1", "chroma_normalizer", [("""    let norm = values.iter().fold(0.0, |acc, &x| acc + x.powi(2)).sqrt();
    if norm < eps {
        values.fill(0.0);
    } else {
        for x in values {
            *x /= norm;
        }
    }""", """    let norm = euclidean_norm(values);
    if norm < eps {
        values.fill(0.0);
        return;
    }
    values.iter_mut().for_each(|x| *x /= norm);"""), ("fn normalize(", """fn euclidean_norm(values: &[f64]) -> f64 {
    values.iter().map(|x| x * x).sum::<f64>().sqrt()
}

fn normalize(""")]),
("norm-2", "chroma_normalizer", [("""        let mut features = features.to_vec();
        normalize(&mut features, 0.01);
        self.consumer.consume(&features);""", """        let mut normalized = Vec::from(features);
        normalize(&mut normalized, NORMALIZE_EPS);
        self.consumer.consume(&normalized);"""), ("fn normalize(", "const NORMALIZE_EPS: f64 = 0.01;\n\nfn normalize(")]),
("comp-1", "compression", [("""                let value = bit_index - *last_bit_index;
                let result = if value >= MAX_NORMAL_VALUE {
                    (MAX_NORMAL_VALUE, Some(value - MAX_NORMAL_VALUE))
                } else {
                    (value, None)
                };

                *last_bit_index = bit_index;
                Some(result)""", """                let gap = bit_index - *last_bit_index;
                *last_bit_index = bit_index;
                Some(match gap {
                    gap if gap < MAX_NORMAL_VALUE => (gap, None),
                    gap => (MAX_NORMAL_VALUE, Some(gap - MAX_NORMAL_VALUE)),
                })""")]),
("comp-2", "compression", [("""        let header_size = 4;
        let normal_size = packed_intn_array_len(normal_bits.len(), 3);
        let exceptional_size = packed_intn_array_len(exceptional_bits.len(), 5);
        let expected_size = header_size + normal_size + exceptional_size;
""", """        let expected_size = 4
            + packed_intn_array_len(normal_bits.len(), 3)
            + packed_intn_array_len(exceptional_bits.len(), 5);
"""), ("""        let output = output
            .into_iter()
            .chain(iter_packed_intn_array::<3>(&normal_bits))
            .chain(iter_packed_intn_array::<5>(&exceptional_bits))
            .collect::<Vec<u8>>();
        debug""", """        let mut output = output.to_vec();
        output.extend(iter_packed_intn_array::<3>(&normal_bits));
        output.extend(iter_packed_intn_array::<5>(&exceptional_bits));
        debug""")]),
("comp-3", "compression", [("""        let (normal_bits, exceptional_bits) = fingerprint
            .iter()
            .scan(0, |last_subfp, current_subfp| {
                let value = current_subfp ^ *last_subfp;
                *last_subfp = *current_subfp;
                Some(value)
            })
            .flat_map(Self::compress_subfingerprint)
            .fold(
                (
                    Vec::<u8>::with_capacity(size),
                    Vec::<u8>::with_capacity(size),
                ),
                |(mut normal_bits, mut exceptional_bits), (normal_value, exceptional_value)| {
                    normal_bits.push(normal_value);
                    if let Some(exceptional_value) = exceptional_value {
                        exceptional_bits.push(exceptional_value);
                    }
                    (normal_bits, exceptional_bits)
                },
            );
""", """        let mut normal_bits = Vec::<u8>::with_capacity(size);
        let mut exceptional_bits = Vec::<u8>::with_capacity(size);
        let mut last_subfp = 0;
        for &current_subfp in fingerprint {
            for (normal_value, exceptional_value) in
                Self::compress_subfingerprint(current_subfp ^ last_subfp)
            {
                normal_bits.push(normal_value);
                if let Some(exceptional_value) = exceptional_value {
                    exceptional_bits.push(exceptional_value);
                }
            }
            last_subfp = current_subfp;
        }
""")]),
("comp-4", "compression", [("    (array_len * n + 7) / 8", "    (array_len * n).div_ceil(8)"), ("            self.0.id(),\n            ((size >> 16) & 0xFF) as u8,\n            ((size >> 8) & 0xFF) as u8,\n            (size & 0xFF) as u8,", "            self.0.id(),\n            (size >> 16) as u8,\n            (size >> 8) as u8,\n            size as u8,")]),
("fft-1", "fft", [("            let window = self.ring_buf.iter().copied().take(self.frame_size);\n", "            let samples = self.ring_buf.iter().copied().take(self.frame_size);\n"), ("""            for (i, (output, input)) in self.fft_buffer_complex.iter_mut().zip(window).enumerate() {
                output.re = input * self.window[i];
                output.im = 0.0;
            }
""", """            for ((output, input), weight) in self
                .fft_buffer_complex
                .iter_mut()
                .zip(samples)
                .zip(self.window.iter())
            {
                *output = Complex::new(input * weight, 0.0);
            }
""")]),
("fft-2", "fft", [("            self.ring_buf.drain(..self.frame_size - self.frame_overlap);", "            let hop = self.hop();\n            self.ring_buf.drain(..hop);"), ("""            window: make_hamming_window(frame_size, 1.0),
            ring_buf: VecDeque::new(),
        }
    }
""", """            window: make_hamming_window(frame_size, 1.0),
            ring_buf: VecDeque::new(),
        }
    }

    fn hop(&self) -> usize {
        self.frame_size - self.frame_overlap
    }
""")]),
("fft-3", "fft", [("        self.ring_buf.extend(data.iter().copied());\n", "        for &sample in data {\n            self.ring_buf.push_back(sample);\n        }\n")]),
("fft-4", "fft", [("""        while self.ring_buf.len() >= self.frame_size {""", """        loop {
            if self.ring_buf.len() < self.frame_size {
                break;
            }
""")]),
("fft-5", "fft", [("""            for i in 0..self.frame_size / 2 {
                self.fft_frame[i] = self.fft_buffer_complex[i].norm_sqr();
            }
""", """            let half = self.frame_size / 2;
            for (power, bin) in self.fft_frame[..half]
                .iter_mut()
                .zip(&self.fft_buffer_complex[..half])
            {
                *power = bin.norm_sqr();
            }
""")]),
("fft-6", "fft", [("""    let mut window = Vec::with_capacity(size);
    for i in 0..size {
        window.push(
            scale
                * (0.54
                    - 0.46
                        * f64::cos(2.0 * std::f64::consts::PI * (i as f64) / (size as f64 - 1.0))),
        );
    }
    window.into_boxed_slice()""", """    (0..size)
        .map(|i| {
            let phase = 2.0 * std::f64::consts::PI * (i as f64) / (size as f64 - 1.0);
            scale * (0.54 - 0.46 * phase.cos())
        })
        .collect::<Vec<f64>>()
        .into_boxed_slice()""")]),
("ap-1", "audio_processor", [("""        let mut index = 0;
        while index < data.len() {
            index += self.load(&data[index..], self.channels as usize);
            if self.buffer.len() == self.buffer_offset {
                // Full buffer
                self.resample(false);
            }
        }
""", """        let channels = self.channels as usize;
        let mut remaining = data;
        while !remaining.is_empty() {
            let consumed = self.load(remaining, channels);
            remaining = &remaining[consumed..];
            if self.available_space() == 0 {
                // Full buffer
                self.resample(false);
            }
        }
""")]),
("ap-2", "audio_processor", [("""            1 => {
                for sample in input.iter().copied() {
                    self.push_sample(sample);
                }
            }
            2 => {
                for sample in input.chunks_exact(2) {
                    self.push_sample(((i32::from(sample[0]) + i32::from(sample[1])) / 2) as i16);
                }
            }
""", """            1 => {
                for &sample in input {
                    self.push_sample(sample);
                }
            }
            2 => {
                for frame in input.chunks_exact(2) {
                    let left = i32::from(frame[0]);
                    let right = i32::from(frame[1]);
                    self.push_sample(((left + right) / 2) as i16);
                }
            }
""")]),
("ap-3", "audio_processor", [("""        if channels == 0 {
            return Err(ResetError::NoChannels);
        }

        if sample_rate <= MIN_SAMPLE_RATE {
            return Err(ResetError::SampleRateTooLow);
        }

        self.channels = channels;
        self.buffer_offset = 0;
        self.input.clear();
        self.resampler = None;
        self.consumer.reset();
""", """        if channels == 0 {
            return Err(ResetError::NoChannels);
        } else if sample_rate <= MIN_SAMPLE_RATE {
            return Err(ResetError::SampleRateTooLow);
        }

        self.consumer.reset();
        self.resampler = None;
        self.input.clear();
        self.buffer_offset = 0;
        self.channels = channels;
""")]),
("ap-4", "audio_processor", [("""        for &sample in &self.buffer[..self.buffer_offset] {
            self.input.push(f64::from(sample) / f64::from(i16::MAX));
        }
        self.buffer_offset = 0;
""", """        let scale = f64::from(i16::MAX);
        self.input.extend(
            self.buffer[..self.buffer_offset]
                .iter()
                .map(|&sample| f64::from(sample) / scale),
        );
        self.buffer_offset = 0;
""")]),
("ap-5", "audio_processor", [("""            let default_input_frames = resampler.input_frames_next();
            while !self.input.is_empty() {
                if self.input.len() < resampler.input_frames_next() {
                    if is_end {
                        // Update chunk size to accept the remaining samples
                        resampler
                            .set_chunk_size(self.input.len())
                            .expect("cannot update chunk size for the resampler");
                    } else {
                        break;
                    }
                }
""", """            let default_input_frames = resampler.input_frames_next();
            while !self.input.is_empty() {
                let short = self.input.len() < resampler.input_frames_next();
                if short && !is_end {
                    break;
                }
                if short {
                    // Update chunk size to accept the remaining samples
                    resampler
                        .set_chunk_size(self.input.len())
                        .expect("cannot update chunk size for the resampler");
                }
""")]),
("ap-6", "audio_processor", [("""        if self.buffer_offset > 0 {
            self.resample(true);
        }
        self.consumer.flush();""", """        let has_pending = self.buffer_offset != 0;
        if has_pending {
            self.resample(true);
        }
        self.consumer.flush();""")]),
("ap-7", "audio_processor", [("""        self.buffer[self.buffer_offset] = value;
        self.buffer_offset += 1;""", """        let at = self.buffer_offset;
        self.buffer_offset = at + 1;
        self.buffer[at] = value;""")]),
("ap-8", "audio_processor", [("""            _ => {
                for sample in input.chunks_exact(channels) {
                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
                    let samples: i64 = sample.len().try_into().unwrap();
                    let average: i64 = sum / samples;
                    self.push_sample(average.try_into().unwrap());
                }
            }""", """            _ => {
                for frame in input.chunks_exact(channels) {
                    let mut total = 0i64;
                    for &s in frame {
                        total += i64::from(s);
                    }
                    self.push_sample((total / frame.len() as i64) as i16);
                }
            }""")]),
("filter-1", "filter", [("""        let filter = match self.kind {
            FilterKind::Filter0 => filter0,
            FilterKind::Filter1 => filter1,
            FilterKind::Filter2 => filter2,
            FilterKind::Filter3 => filter3,
            FilterKind::Filter4 => filter4,
            FilterKind::Filter5 => filter5,
        };
        filter(image, x, self.y, self.width, self.height, subtract_log)""", """        let (y, w, h) = (self.y, self.width, self.height);
        match self.kind {
            FilterKind::Filter0 => filter0(image, x, y, w, h, subtract_log),
            FilterKind::Filter1 => filter1(image, x, y, w, h, subtract_log),
            FilterKind::Filter2 => filter2(image, x, y, w, h, subtract_log),
            FilterKind::Filter3 => filter3(image, x, y, w, h, subtract_log),
            FilterKind::Filter4 => filter4(image, x, y, w, h, subtract_log),
            FilterKind::Filter5 => filter5(image, x, y, w, h, subtract_log),
        }""")]),
("filter-2", "filter", [("""    let w_3 = w / 3;

    let a = image.area(x + w_3, y, x + 2 * w_3, y + h);
    let b = image.area(x, y, x + w_3, y + h) + image.area(x + 2 * w_3, y, x + w, y + h);

    cmp(a, b)""", """    let third = w / 3;
    let (first, second) = (x + third, x + 2 * third);

    let left = image.area(x, y, first, y + h);
    let middle = image.area(first, y, second, y + h);
    let right = image.area(second, y, x + w, y + h);

    cmp(middle, left + right)""")]),
("filter-3", "filter", [("""    let r = f64::ln((1.0 + a) / (1.0 + b));
    assert!(!r.is_nan());
    r""", """    let ratio = (1.0 + a) / (1.0 + b);
    let r = ratio.ln();
    assert!(!r.is_nan());
    r""")]),
("calc-1", "fingerprint_calculator", [("""        let mut bits = 0u32;
        for classifier in &self.classifiers {
            bits = (bits << 2) | gray_code(classifier.classify(&self.image, offset));
        }
        bits""", """        self.classifiers.iter().fold(0u32, |bits, classifier| {
            (bits << 2) | gray_code(classifier.classify(&self.image, offset))
        })""")]),
("calc-2", "fingerprint_calculator", [("    [0, 1, 3, 2][i as usize]", "    match i {\n        0 => 0,\n        1 => 1,\n        2 => 3,\n        3 => 2,\n        _ => unreachable!(),\n    }")]),
("calc-3", "fingerprint_calculator", [("""        if self.image.rows() >= self.max_filter_width {
            self.fingerprint
                .push(self.calculate_subfingerprint(self.image.rows() - self.max_filter_width));
        }""", """        let rows = self.image.rows();
        if rows < self.max_filter_width {
            return;
        }
        let item = self.calculate_subfingerprint(rows - self.max_filter_width);
        self.fingerprint.push(item);""")]),
("calc-4", "fingerprint_calculator", [("    [0, 1, 3, 2][i as usize]", "    i ^ (i >> 1)")]),
("quant-1", "quantize", [("""        if val < self.t1 {
            if val < self.t0 {
                0
            } else {
                1
            }
        } else if val < self.t2 {
            2
        } else {
            3
        }""", """        if val < self.t0 && val < self.t1 {
            0
        } else if val < self.t1 {
            1
        } else if val < self.t2 {
            2
        } else {
            3
        }""")]),
("class-1", "classifier", [("""        let value = self.filter.apply(image, offset);
        self.quantizer.quantize(value)""", """        self.quantizer.quantize(self.filter.apply(image, offset))""")]),
]
