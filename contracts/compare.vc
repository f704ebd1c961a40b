## the comparison tool; its surroundings are in spec_symph.rs and spec_compare.rs
@fn args_os
@ghostarg Tracked(&mut *vc_w)
@spec
@fn cmp::calc_fingerprint
@ghostparam Tracked(vc_w): Tracked<&mut World>
@ghostarg Tracked(&mut *vc_w)
@attrs
#[verifier::exec_allows_no_decreases_clause]
@spec
    ensures
        final(vc_w).args == old(vc_w).args, final(vc_w).out == old(vc_w).out,
        r matches Ok(v) ==> final(vc_w).runs.len() == old(vc_w).runs.len() + 1 && final(vc_w).runs.drop_last() == old(vc_w).runs && run_ok(final(vc_w).runs.last(), path.path) && v@ == run_fp(final(vc_w).runs.last(), *config)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost p0 = path.path; let ghost out0 = vc_w.out; let ghost args0 = vc_w.args; let ghost runs0 = vc_w.runs;
    proof { vc_w.offered = Seq::empty(); vc_w.sent = Seq::empty(); vc_w.decoded = Seq::empty(); vc_w.frames = 0; vc_w.eof = false; }
@loop 1
    invariant_except_break k1 <= n1, acc_t2 is None, forall|j: int| 0 <= j < k1 ==> (#[trigger] tracks_of(p0)[j]).codec_params.codec == CODEC_TYPE_NULL
    invariant n1 == tracks_of(p0).len(), s_t1@ == tracks_of(p0)
    ensures acc_t2 matches Some(t) ==> chosen_track(p0, t)
    decreases n1 - k1
@at body 1
    proof { if tracks_of(p0)[j1 as int].codec_params.codec != CODEC_TYPE_NULL { assert(is_chosen(tracks_of(p0), j1 as int)); } }
@before "let mut printer"
    let ghost tr = *track;
@loop 2
    invariant
        *path == p0, vc_w.args == args0, vc_w.out == out0, vc_w.runs == runs0,
        track_id == tr.id, decoder.params() == tr.codec_params, tr.codec_params.nch() == channels, channels > 0,
        vc_w.sent == of_track(vc_w.offered, track_id),
        printer.ready(), !printer.finished(), printer.config() == *config, printer.rate() == sample_rate, printer.channels() == channels,
        printer.fed() == vc_w.decoded,
        fits(sample_buf, tr.codec_params)
    ensures vc_w.eof
@at body 2
    broadcast use {real_ax, seq_ax};
    let ghost wb = *vc_w;
@after "let packet" 1
    proof { lemma_track_push(wb.offered, packet, track_id); }
@before "printer . consume"
    proof { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(vc_w.frames - wb.frames, channels as int); }
@at end
    proof {
        let u = Run { path: p0, track: track_id, rate: sample_rate as nat, ch: channels as nat, offered: vc_w.offered, sent: vc_w.sent, decoded: vc_w.decoded, eof: vc_w.eof };
        assert(from_track(tr, track_id, sample_rate as nat, channels as nat));
        vc_w.runs = vc_w.runs.push(u);
        assert(vc_w.runs.drop_last() =~= runs0);
    }
@fn cmp::main
@ghostparam Tracked(vc_w): Tracked<&mut World>
@spec
    requires old(vc_w).fresh()
    ensures
        r is Ok && final(vc_w).args.len() != 3 ==> final(vc_w).out.t == Seq::<Tok>::empty(),
        final(vc_w).args == old(vc_w).args,
        r is Ok && old(vc_w).args.len() == 3 ==> final(vc_w).runs.len() == 2 && run_ok(final(vc_w).runs[0], old(vc_w).args[1].path) && run_ok(final(vc_w).runs[1], old(vc_w).args[2].path)
            && final(vc_w).out.t == table(matched(run_fp(final(vc_w).runs[0], preset(0)), run_fp(final(vc_w).runs[1], preset(0)), preset(0)), preset(0))
@at start
    broadcast use {real_ax, seq_ax};
    let ghost args0 = vc_w.args;
    proof { lemma_lit0(); lemma_lit1(); lemma_lit2(); lemma_lit3(); }
@before "let segments"
    let ghost runs2 = vc_w.runs;
@loop 1
    invariant
        k1 <= n1, n1 == segments@.len(), config == preset(0), vc_w.args == args0, vc_w.runs == runs2,
        vc_w.out.t == table(segments@.take(k1 as int), preset(0)),
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax};
    proof { lemma_table(segments@, j1 as int, preset(0)); lemma_lit2(); lemma_lit3(); }
@at after 1
    proof { assert(segments@.take(segments@.len() as int) =~= segments@); }
