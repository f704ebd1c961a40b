## printing, symphonia: trusted stubs in spec_symph.rs that act on the ghost world
@fn vc_out_put1
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put2
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put3
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put4
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put5
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put6
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put7
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_put8
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_show
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_fixed
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_show_in
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn vc_out_fixed_in
@ghostarg Tracked(&mut vc_w.out)
@spec
@fn sym::FormatReader::next_packet
@ghostarg Tracked(&mut *vc_w)
@spec
@fn sym::Decoder::decode
@ghostarg Tracked(&mut *vc_w)
@spec
@fn main::Args::parse
@ghostarg Tracked(&mut *vc_w)
@spec
@fn main::get_current_timestamp
@spec
@fn main::Algorithm::as_config
@spec
    ensures *r == self.0
@fn main::Args::max_chunk_duration
@spec
    ensures r == match self.chunk { Some(c) => c, None => 0 }
@fn main::Args::to_result_printer
@spec
    ensures printer_for(r, *self)
@fn main::Algorithm.TryFrom::try_from
@spec
    ensures
        r is Ok <==> (u8_of(value@) matches Some(v) && v <= 4),
        r matches Ok(a) ==> u8_of(value@) matches Some(v) && a.0 == preset(v as int) && a.0.id_of() == v
@fn main::OutputFormat.TryFrom::try_from
@spec
    ensures
        value@ == "text"@ ==> r == Ok::<OutputFormat, &'static str>(OutputFormat::Text),
        value@ == "json"@ ==> r == Ok::<OutputFormat, &'static str>(OutputFormat::Json),
        value@ == "plain"@ ==> r == Ok::<OutputFormat, &'static str>(OutputFormat::Plain),
        r is Ok ==> value@ == "text"@ || value@ == "json"@ || value@ == "plain"@
@at start
    proof { ax_str(value, "text"); ax_str(value, "json"); ax_str(value, "plain"); reveal_strlit("text"); reveal_strlit("json"); reveal_strlit("plain"); assert("text"@[0] != "json"@[0] && "text"@[0] != "plain"@[0] && "json"@[0] != "plain"@[0]); }
@fn main::ResultPrinter::print_result
@ghostparam Tracked(vc_w): Tracked<&mut World>
@ghostarg Tracked(&mut *vc_w)
@spec
    requires
        printer_for(*self, old(vc_w).args), //[C23]
        printer.finished(), //[C21 C23]
        printer.config() == old(vc_w).args.algorithm.0, printer.rate() == old(vc_w).rate, printer.channels() == old(vc_w).ch,
        first <==> old(vc_w).printed.len() == 0, //[C23]
        text_ok(*old(vc_w)), //[C23]
    ensures
        text_ok(*final(vc_w)),
        *final(vc_w) == (World { printed: old(vc_w).printed.push(printer.fed()), times: old(vc_w).times.push((timestamp@, duration@)), out: final(vc_w).out, ..*old(vc_w) })
@at start
    let ghost w0 = *vc_w; let ghost fpr = fingerprint_of(printer.config(), printer.rate(), printer.channels(), printer.fed());
    proof { lemma_lit0(); lemma_lit1(); lemma_lit2(); lemma_lit3(); lemma_lit4(); lemma_lit5(); lemma_lit6(); lemma_lit7(); lemma_lit8(); lemma_lit9(); }
@loop 1
    invariant k1 <= n1, n1 == raw_fingerprint@.len(), acc_t1@.len() == k1, forall|i: int| 0 <= i < k1 ==> (#[trigger] acc_t1@[i])@ == dec_text(signed_of(raw_fingerprint@[i])),
    decreases n1 - k1
@at body 1
    proof { lemma_signed(raw_fingerprint@[j1 as int]); }
@at after 1
    proof { assert(texts(acc_t1@) =~= signed_texts(raw_fingerprint@)); }
@loop 2
    invariant k2 <= n2, n2 == raw_fingerprint@.len(), acc_t2@.len() == k2, forall|i: int| 0 <= i < k2 ==> (#[trigger] acc_t2@[i])@ == dec_text(raw_fingerprint@[i] as int),
    decreases n2 - k2
@at after 2
    proof { assert(texts(acc_t2@) =~= unsigned_texts(raw_fingerprint@)); }
@at end
    proof {
        let t = result_text(w0.out.t, self.format, self.raw, self.abs_ts, self.max_chunk_duration != 0, first, timestamp@, duration@, fp_text(self.raw, self.signed, self.config.id_of(), fpr));
        assert(fp@ == fp_text(self.raw, self.signed, self.config.id_of(), fpr));
        assert(vc_w.out.t == t);
        lemma_text_push(w0.args, w0.rate, w0.ch, w0.printed, w0.times, printer.fed(), (timestamp@, duration@));
        vc_w.printed = vc_w.printed.push(printer.fed());
        vc_w.times = vc_w.times.push((timestamp@, duration@));
    }
@fn main::AudioReader::new
@ghostparam Tracked(vc_w): Tracked<&mut World>
@ghostarg Tracked(&mut *vc_w)
@spec
    ensures
        *final(vc_w) == (World { rate: final(vc_w).rate, ch: final(vc_w).ch, path: final(vc_w).path, track: final(vc_w).track, ..*old(vc_w) }),
        r matches Ok(v) ==> final(vc_w).rate == v.sample_rate && final(vc_w).ch == v.channel_count && final(vc_w).track == v.track_id && final(vc_w).path == path.path && v.reads(path.path)
@at start
    let ghost p0 = path.path;
@loop 1
    invariant_except_break k1 <= n1, acc_t2 is None, forall|j: int| 0 <= j < k1 ==> (#[trigger] tracks_of(p0)[j]).codec_params.codec == CODEC_TYPE_NULL
    invariant n1 == tracks_of(p0).len(), s_t1@ == tracks_of(p0)
    ensures acc_t2 matches Some(t) ==> chosen_track(p0, t)
    decreases n1 - k1
@at body 1
    proof { if tracks_of(p0)[j1 as int].codec_params.codec != CODEC_TYPE_NULL { assert(is_chosen(tracks_of(p0), j1 as int)); } }
@at end
    proof { vc_w.rate = sample_rate as nat; vc_w.ch = channel_count as nat; vc_w.track = track_id; vc_w.path = *path; }
@fn main::AudioReader::next_buffer
@ghostparam Tracked(vc_w): Tracked<&mut World>
@ghostarg Tracked(&mut *vc_w)
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
    requires old(vc_w).routed(), old(self).track_id == old(vc_w).track, old(self).decoder.params().nch() == old(vc_w).ch, old(vc_w).frames <= 0x100_0000_0000
    ensures
        final(vc_w).routed(), final(self).same(old(self)), final(vc_w).frames <= 0x100_0000_0000,
        *final(vc_w) == (World { offered: final(vc_w).offered, sent: final(vc_w).sent, decoded: final(vc_w).decoded, frames: final(vc_w).frames, eof: final(vc_w).eof, ..*old(vc_w) }),
        r matches Ok(b) ==> b.nframes() <= b.cap() && b.cap() == room_of(old(self).decoder.params()),
        r matches Ok(b) ==> b.samples().len() == b.nframes() * old(vc_w).ch && b.samples().len() <= usize::MAX
            && final(vc_w).decoded == old(vc_w).decoded + b.samples() && final(vc_w).frames == old(vc_w).frames + b.nframes() && final(vc_w).eof == old(vc_w).eof,
        r matches Err(e) ==> final(vc_w).decoded == old(vc_w).decoded && final(vc_w).frames == old(vc_w).frames && (final(vc_w).eof || e is DecodeError)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost s0 = *self; let ghost w0 = *vc_w;
@loop 1
    invariant_except_break
        brk_t1 is None, *vc_w == (World { offered: vc_w.offered, ..w0 }), vc_w.routed()
    invariant self.same(&s0), self.decoder == s0.decoder, vc_w.track == s0.track_id
    ensures
        brk_t1 is Some, brk_t1 matches Some(Ok(p)) ==> *vc_w == (World { offered: vc_w.offered, ..w0 }) && of_track(vc_w.offered, vc_w.track) == vc_w.sent.push(p),
        brk_t1 matches Some(Err(_)) ==> *vc_w == (World { offered: vc_w.offered, eof: true, ..w0 }) && vc_w.routed()
@at body 1
    broadcast use {real_ax, seq_ax};
    let ghost wb = *vc_w;
@after "let packet" 1
    proof { lemma_track_push(wb.offered, packet, vc_w.track); }
@fn main::main
@attrs
#[verifier::exec_allows_no_decreases_clause]
@ghostparam Tracked(vc_w): Tracked<&mut World>
@spec
    requires old(vc_w).fresh()
    ensures
        r is Ok ==> report_ok(*final(vc_w)), //[C21]
        r is Ok ==> final(vc_w).routed() && chosen_input(final(vc_w).path, final(vc_w).track, final(vc_w).rate, final(vc_w).ch), //[C21]
        r is Ok ==> final(vc_w).path == final(vc_w).args.file.path, //[C21]
        r is Ok ==> text_ok(*final(vc_w)), //[C23]
        r is Ok && !final(vc_w).args.overlap ==> times_ok(final(vc_w).printed, final(vc_w).times, final(vc_w).rate, final(vc_w).ch, final(vc_w).args.ts) //[C24]
@at start
    broadcast use {real_ax, seq_ax};
@before "let stream_limit"
    proof { assert(0 <= args.length * sample_rate <= 0x8000_0000 * 0x1_0000_0000) by (nonlinear_arith) requires 0 <= args.length < 0x8000_0000, 0 <= sample_rate < 0x1_0000_0000; }
@before "let chunk_limit"
    proof { let c = match args.chunk { Some(c) => c as int, None => 0 }; assert(0 <= c * sample_rate <= 0x8000_0000 * 0x1_0000_0000) by (nonlinear_arith) requires 0 <= c < 0x8000_0000, 0 <= sample_rate < 0x1_0000_0000; }
@before "let stream_limit"
    proof { lemma_secs(0, 0, vc_w.rate); }
    let ghost mut wz = *vc_w; let ghost mut pz = printer; let ghost wr = (reader.decoder.params(), vc_w.path);
@loop 1
    invariant
        stream_limit == vc_w.stream_limit(), chunk_limit == vc_w.chunk_limit(), vc_w.args == args, *config == args.algorithm.0,
        printer_for(result_printer, args), //[C23]
        reader.sample_rate == vc_w.rate, reader.channel_count == vc_w.ch, channel_count == vc_w.ch, sample_rate == vc_w.rate,
        reader.track_id == vc_w.track, reader.decoder.params() == wr.0, vc_w.path == wr.1, vc_w.routed(), chosen_input(vc_w.path, vc_w.track, vc_w.rate, vc_w.ch), wr.0.nch() == vc_w.ch, vc_w.path == args.file.path,
        text_ok(*vc_w), //[C23]
        !args.overlap ==> overlap@ == 0real, //[C24]
        !args.overlap && !args.ts ==> ts@ == secs(stream_size - chunk_size, vc_w.rate), //[C24]
        !args.overlap ==> times_ok(vc_w.printed, vc_w.times, vc_w.rate, vc_w.ch, args.ts), //[C24]
        chunk_state(*vc_w, printer, chunk_size as int, extra_chunk_limit as int, first_chunk),
        stream_size == wanted(vc_w.frames as int, stream_limit as int),
        extra_chunk_limit < 0x1_0000_0000, chunk_limit <= 0x8000_0000 * 0x1_0000_0000,
        chunk_size <= stream_size,
        taken(*vc_w, printer, stream_size as int),
        fits(sample_buf, wr.0)
    ensures vc_w.eof || (stream_limit > 0 && vc_w.frames >= stream_limit)
@at body 1
    broadcast use {real_ax, seq_ax};
    let ghost w0 = *vc_w; let ghost s0 = stream_size as int;
@after "next_buffer"
    let ghost w1 = *vc_w; let ghost nb = audio_buf.nframes(); let ghost bs = audio_buf.samples();
@after "stream_size += frame_size"
    proof { lemma_packet(w0, w1, printer, bs, nb, s0, frame_size as int); }
@loop 2
    invariant_except_break
        frame_size * vc_w.ch <= frame_data@.len(),
        taken_but(*vc_w, printer, stream_size as int, frame_data@.take(frame_size * vc_w.ch))
    invariant
        stream_limit == vc_w.stream_limit(), chunk_limit == vc_w.chunk_limit(), vc_w.args == args, *config == args.algorithm.0,
        printer_for(result_printer, args), //[C23]
        reader.sample_rate == vc_w.rate, reader.channel_count == vc_w.ch, channel_count == vc_w.ch, sample_rate == vc_w.rate,
        text_ok(*vc_w), //[C23]
        !args.overlap ==> overlap@ == 0real, //[C24]
        !args.overlap && !args.ts ==> ts@ == secs(stream_size - frame_size - chunk_size, vc_w.rate), //[C24]
        !args.overlap ==> times_ok(vc_w.printed, vc_w.times, vc_w.rate, vc_w.ch, args.ts), //[C24]
        *vc_w == (World { printed: vc_w.printed, times: vc_w.times, out: vc_w.out, ..w1 }), frame_data@.len() <= usize::MAX,
        extra_chunk_limit < 0x1_0000_0000, chunk_limit <= 0x8000_0000 * 0x1_0000_0000, chunk_size + frame_size <= stream_size <= vc_w.frames,
        chunk_state(*vc_w, printer, chunk_size as int, extra_chunk_limit as int, first_chunk)
    ensures taken(*vc_w, printer, stream_size as int), chunk_size <= stream_size,
        !args.overlap && !args.ts ==> ts@ == secs(stream_size - chunk_size, vc_w.rate) //[C24]
@at body 2
    broadcast use {real_ax, seq_ax};
    let ghost p0 = printer; let ghost d0 = frame_data@; let ghost f0 = frame_size as int; let ghost c0 = chunk_size as int;
@after "let ( chunk_done , first_part_size )"
    proof {
        let ch = vc_w.ch as int;
        assert(0 <= first_part_size * ch <= f0 * ch) by (nonlinear_arith) requires 0 <= first_part_size <= f0, ch > 0;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(first_part_size as int, ch);
    }
@after "printer . consume"
    proof {
        let ch = vc_w.ch as int;
        lemma_feed(*vc_w, p0, printer, stream_size as int, d0, f0, first_part_size as int);
        assert((c0 + first_part_size) * ch == c0 * ch + first_part_size * ch) by (nonlinear_arith);
    }
@before "result_printer . print_result"
    let ghost wp = *vc_w; let ghost pp = printer; let ghost cz = chunk_size as int; let ghost tz = ts@;
    proof {
        let ch = vc_w.ch as int; let rest = frame_data@.take(frame_size * ch);
        lemma_one((chunk_size - extra_chunk_limit) as real);
        if !args.overlap {
            lemma_secs(stream_size - frame_size - chunk_size, cz, vc_w.rate); //[C24]
            assert(stream_size * ch <= vc_w.frames * ch && 0 <= stream_size * ch && frame_size * ch >= 0) by (nonlinear_arith) requires 0 <= stream_size <= vc_w.frames, ch > 0, frame_size >= 0;
            lemma_times(*vc_w, printer, stream_size as int, rest, cz, frame_size as int, ts@, chunk_duration@, args.ts); //[C24]
        }
    }
@at tail 2
    proof { lemma_shown(wp, *vc_w, pp, printer, stream_size as int, frame_data@.take(frame_size * vc_w.ch)); }
@at after 1
    proof { wz = *vc_w; pz = printer; }
@before "result_printer . print_result" 2
    proof {
        let ch = vc_w.ch as int;
        lemma_one(chunk_size as real);
        if !args.overlap {
            lemma_secs(stream_size - chunk_size, chunk_size as int, vc_w.rate); //[C24]
            assert(stream_size * ch <= vc_w.frames * ch && 0 <= stream_size * ch) by (nonlinear_arith) requires 0 <= stream_size <= vc_w.frames, ch > 0;
            assert(cat(vc_w.printed) + printer.fed() + Seq::<i16>::empty() =~= cat(vc_w.printed) + printer.fed());
            lemma_times(*vc_w, printer, stream_size as int, Seq::<i16>::empty(), chunk_size as int, 0, ts@, chunk_duration@, args.ts); //[C24]
        }
    }
@at end
    proof { lemma_report(wz, *vc_w, pz, stream_size as int, chunk_size as int, extra_chunk_limit as int, first_chunk); }
