@impl audio_processor::AudioProcessor
    pub open spec fn rs(&self) -> Option<RsState> { match self.resampler { None => None, Some(r) => Some(r.st()) } }
    pub open spec fn rs0(&self) -> Option<RsState> { match self.resampler { None => None, Some(r) => Some(r.st0()) } }
    pub open spec fn rs_ok(s: Option<RsState>) -> bool { match s { None => true, Some(q) => rs_chunk(q) == MAX_BUFFER_SIZE && rs_max(q) == MAX_BUFFER_SIZE } }
    pub open spec fn fits(c: &C) -> bool { c.ainv() && c.reset_ok() && c.aseen() >= 0 && forall|n: nat| #[trigger] c.data_ok(n) }
    pub open spec fn ready(&self) -> bool {
        &&& self.buffer@.len() == MAX_BUFFER_SIZE && self.buffer_offset <= MAX_BUFFER_SIZE && self.input@.len() == 0
        &&& Self::fits(&self.consumer) && 1 <= self.target_sample_rate < 12000 && Self::rs_ok(self.rs())
    }
    // the consumer received exactly e since o
    pub open spec fn grew(c: &C, o: &C, e: Seq<Real>) -> bool { forall|y: Seq<Real>| o.arepr(y) ==> #[trigger] c.arepr(y + e) }
    pub open spec fn out1(&self, is_end: bool) -> Seq<Real> { if is_end { fwd_end(self.rs(), scaled(self.held())) } else { fwd(self.rs(), scaled(self.held())).1 } }
    pub open spec fn held(&self) -> Seq<i16> { self.buffer@.take(self.buffer_offset as int) }
    pub open spec fn total(&self) -> int { self.consumer.aseen() + self.buffer_offset * (OUT_MAX * C::aw()) }
    pub open spec fn same(&self, o: &Self) -> bool { self.ready() && self.channels == o.channels && self.target_sample_rate == o.target_sample_rate && self.rs0() == o.rs0() && self.consumer.acfg() == o.consumer.acfg() }
    // k blocks of the mixed stream m have been passed on, the rest is held
    pub open spec fn mid(&self, m: Seq<i16>, k: int) -> bool {
        &&& 0 <= k && 0 <= k * MAX_BUFFER_SIZE <= m.len() && self.held() == m.skip(k * MAX_BUFFER_SIZE)
        &&& self.rs() == blocks(self.rs0(), m, MAX_BUFFER_SIZE as int, k).0 && self.consumer.arepr(blocks(self.rs0(), m, MAX_BUFFER_SIZE as int, k).1)
    }
    pub open spec fn nblocks(&self, x: Seq<i16>) -> int { mono(x, self.channels as int).len() as int / (MAX_BUFFER_SIZE as int) }
    pub open spec fn midx(&self, x: Seq<i16>, d: Seq<i16>, g: int) -> bool { self.mid(mono(x + d, self.channels as int), self.nblocks(x) + g) }
    // starting from o, the samples d were taken in and g blocks were passed on since
    pub open spec fn prog(&self, o: &Self, d: Seq<i16>, g: int) -> bool { g >= 0 && forall|x: Seq<i16>| o.arepr(x) ==> #[trigger] self.midx(x, d, g) }
    // the stream x was consumed and finished: this is everything that was passed on
    pub open spec fn frepr(&self, x: Seq<i16>) -> bool { self.ainv() && self.consumer.arepr(passed(self.rs0(), mono(x, self.channels as int), MAX_BUFFER_SIZE as int)) }
    pub open spec fn fout_of(cfg: (int, Option<RsState>, C::ACfg, u32), x: Seq<i16>) -> Seq<u32> { C::aout_of(cfg.2, passed(cfg.1, mono(x, cfg.0), MAX_BUFFER_SIZE as int)) }
    pub proof fn lemma_fout(&self, x: Seq<i16>)
        requires self.frepr(x)
        ensures self.view_out() == Self::fout_of(self.acfg(), x)
    { self.consumer.lemma_aout(passed(self.rs0(), mono(x, self.channels as int), MAX_BUFFER_SIZE as int)); }
    // k frames of the input were mixed into the buffer since o
    pub open spec fn loaded(&self, o: &Self, inp: Seq<i16>, ch: int, k: int) -> bool {
        &&& self.buffer@.len() == MAX_BUFFER_SIZE && self.buffer_offset == o.buffer_offset + k && self.buffer_offset <= MAX_BUFFER_SIZE && 0 <= k && 0 <= k * ch <= inp.len()
        &&& self.held() == o.held() + mono(inp.take(k * ch), ch)
        &&& self.output_buffer == o.output_buffer && self.input == o.input && self.channels == o.channels && self.consumer == o.consumer && self.target_sample_rate == o.target_sample_rate && self.resampler == o.resampler
    }
    pub proof fn lemma_load_start(&self, inp: Seq<i16>, ch: int)
        requires self.buffer@.len() == MAX_BUFFER_SIZE, self.buffer_offset <= MAX_BUFFER_SIZE, ch >= 1
        ensures self.loaded(self, inp, ch, 0)
    { assert(0 * ch == 0); lemma_small_mod(0, ch as nat); assert(0int / ch == 0) by(nonlinear_arith) requires ch >= 1; assert(mono(inp.take(0), ch) =~= Seq::<i16>::empty()); assert(self.held() =~= self.held() + Seq::<i16>::empty()); }
    pub proof fn lemma_load_step(&self, q: &Self, o: &Self, inp: Seq<i16>, ch: int, k: int, f: Seq<i16>, v: i16)
        requires q.loaded(o, inp, ch, k), ch >= 1, k * ch + ch <= inp.len(), f == inp.subrange(k * ch, k * ch + ch), v == mixed(f), q.buffer_offset < MAX_BUFFER_SIZE,
            self.buffer@ == q.buffer@.update(q.buffer_offset as int, v), self.buffer_offset == q.buffer_offset + 1,
            self.output_buffer == q.output_buffer && self.input == q.input && self.channels == q.channels && self.consumer == q.consumer && self.target_sample_rate == q.target_sample_rate && self.resampler == q.resampler
        ensures self.loaded(o, inp, ch, k + 1)
    {
        assert((k + 1) * ch == k * ch + ch) by(nonlinear_arith);
        assert(inp.take((k + 1) * ch) =~= inp.take(k * ch) + f);
        lemma_mod_multiples_basic(k, ch);
        lemma_mono_cat(inp.take(k * ch), f, ch);
        assert(ch / ch == 1) by(nonlinear_arith) requires ch >= 1;
        assert(f.subrange(0 * ch, 0 * ch + ch) =~= f);
        assert(mono(f, ch) =~= seq![v]);
        assert(self.held() =~= q.held().push(v));
        assert(self.held() =~= o.held() + mono(inp.take((k + 1) * ch), ch));
    }
    pub proof fn lemma_prog_start(&self)
        ensures self.prog(self, Seq::empty(), 0)
    {
        assert forall|x: Seq<i16>| self.arepr(x) implies #[trigger] self.midx(x, Seq::empty(), 0) by { assert(x + Seq::<i16>::empty() =~= x); }
    }
    pub proof fn lemma_prog_load(&self, q: &Self, o: &Self, d: Seq<i16>, e: Seq<i16>, g: int)
        requires q.prog(o, d, g), q.same(o), self.same(o), self.channels >= 1, d.len() % (self.channels as nat) == 0, self.held() == q.held() + mono(e, self.channels as int), self.consumer == q.consumer, self.resampler == q.resampler
        ensures self.prog(o, d + e, g)
    {
        let ch = self.channels as int;
        let b = MAX_BUFFER_SIZE as int;
        assert forall|x: Seq<i16>| o.arepr(x) implies #[trigger] self.midx(x, d + e, g) by {
            assert(q.midx(x, d, g));
            let m = mono(x + d, ch);
            let k = self.nblocks(x) + g;
            lemma_add_mod_noop(x.len() as int, d.len() as int, ch);
            lemma_small_mod(0, ch as nat);
            lemma_mono_cat(x + d, e, ch);
            assert(x + d + e =~= x + (d + e));
            lemma_blocks_prefix(self.rs0(), m, mono(e, ch), b, k);
            assert((m + mono(e, ch)).skip(k * b) =~= m.skip(k * b) + mono(e, ch));
        }
    }
    pub proof fn lemma_prog_block(&self, q: &Self, o: &Self, d: Seq<i16>, g: int)
        requires q.prog(o, d, g), q.same(o), self.same(o), q.buffer_offset == MAX_BUFFER_SIZE, self.buffer_offset == 0, self.rs() == fwd(q.rs(), scaled(q.held())).0,
            Self::grew(&self.consumer, &q.consumer, q.out1(false))
        ensures self.prog(o, d, g + 1)
    {
        let ch = self.channels as int;
        let b = MAX_BUFFER_SIZE as int;
        assert forall|x: Seq<i16>| o.arepr(x) implies #[trigger] self.midx(x, d, g + 1) by {
            assert(q.midx(x, d, g));
            let m = mono(x + d, ch);
            let k = self.nblocks(x) + g;
            assert((k + 1) * b == k * b + b) by(nonlinear_arith);
            lemma_div_nonneg(mono(x, ch).len() as int, b);
            assert(q.held().len() == b);
            assert(m.skip(k * b).len() == b);
            assert(m.subrange(k * b, k * b + b) =~= m.skip(k * b));
            assert(self.held() =~= m.skip((k + 1) * b));
        }
    }
    pub proof fn lemma_prog_end(&self, o: &Self, d: Seq<i16>, g: int)
        requires self.prog(o, d, g), self.same(o), self.buffer_offset < MAX_BUFFER_SIZE, self.channels >= 1, d.len() % (self.channels as nat) == 0
        ensures forall|x: Seq<i16>| o.arepr(x) ==> #[trigger] self.arepr(x + d)
    {
        let ch = self.channels as int;
        let b = MAX_BUFFER_SIZE as int;
        assert forall|x: Seq<i16>| o.arepr(x) implies #[trigger] self.arepr(x + d) by {
            assert(self.midx(x, d, g));
            lemma_add_mod_noop(x.len() as int, d.len() as int, ch);
            lemma_small_mod(0, ch as nat);
            let m = mono(x + d, ch);
            let k = self.nblocks(x) + g;
            assert(self.held().len() == self.buffer_offset);
            lemma_fundamental_div_mod_converse(m.len() as int, b, k, m.len() - k * b);
        }
    }
    pub proof fn lemma_flushed(&self, o: &Self)
        requires self.same(o), self.buffer_offset == 0, 
            Self::grew(&self.consumer, &o.consumer, if o.buffer_offset == 0 { Seq::empty() } else { o.out1(true) })
        ensures forall|x: Seq<i16>| o.arepr(x) ==> #[trigger] self.frepr(x)
    {
        let b = MAX_BUFFER_SIZE as int;
        assert forall|x: Seq<i16>| o.arepr(x) implies #[trigger] self.frepr(x) by {
            let m = mono(x, self.channels as int);
            let y = blocks(self.rs0(), m, b, m.len() as int / b).1;
            assert(o.held().len() == o.buffer_offset);
            assert(o.consumer.arepr(y));
            let e = if o.buffer_offset == 0 { Seq::empty() } else { o.out1(true) };
            assert(self.consumer.arepr(y + e));
            assert(y + Seq::<Real>::empty() =~= y);
        }
    }
@impl audio_processor::AudioProcessor.Stage
    open spec fn out_view(o: &Self::Output) -> Seq<u32> { C::out_view(o) }
    open spec fn view_out(&self) -> Seq<u32> { self.consumer.view_out() }
@impl audio_processor::AudioProcessor.AudioConsumer
    type ACfg = (int, Option<RsState>, C::ACfg, u32);
    open spec fn acfg(&self) -> Self::ACfg { (self.channels as int, self.rs0(), self.consumer.acfg(), self.target_sample_rate) }
    open spec fn ainv(&self) -> bool { self.ready() && self.buffer_offset < MAX_BUFFER_SIZE }
    open spec fn reset_ok(&self) -> bool { false }
    open spec fn data_ok(&self, n: nat) -> bool { self.channels >= 1 && n % (self.channels as nat) == 0 }
    open spec fn aseen(&self) -> int { self.total() }
    open spec fn aw() -> int { OUT_MAX * C::aw() }
    proof fn lemma_aw() { C::lemma_aw(); }
    open spec fn arepr(&self, x: Seq<i16>) -> bool { self.ainv() && self.channels >= 1 && x.len() % (self.channels as nat) == 0 && self.mid(mono(x, self.channels as int), self.nblocks(x)) }
    // before the stream is finished only its complete blocks have been passed on
    open spec fn aout_of(cfg: Self::ACfg, x: Seq<i16>) -> Seq<u32> { let m = mono(x, cfg.0); C::aout_of(cfg.2, blocks(cfg.1, m, MAX_BUFFER_SIZE as int, m.len() as int / (MAX_BUFFER_SIZE as int)).1) }
    proof fn lemma_aout(&self, x: Seq<i16>) { let m = mono(x, self.channels as int); self.consumer.lemma_aout(blocks(self.rs0(), m, MAX_BUFFER_SIZE as int, m.len() as int / (MAX_BUFFER_SIZE as int)).1); }
@fn audio_processor::AudioProcessor::new
@spec
    requires 1 <= target_sample_rate < 12000, Self::fits(&consumer)
    ensures r.ainv(), r.consumer == consumer, r.target_sample_rate == target_sample_rate, r.channels == 0, r.rs0() is None, r.total() == consumer.aseen()
@fn audio_processor::AudioProcessor::load
@spec
    requires old(self).buffer@.len() == MAX_BUFFER_SIZE, old(self).buffer_offset <= MAX_BUFFER_SIZE, 1 <= channels <= u32::MAX, input@.len() % (channels as nat) == 0
    ensures r <= input@.len(), r % channels == 0, final(self).buffer@.len() == MAX_BUFFER_SIZE, final(self).buffer_offset <= MAX_BUFFER_SIZE,
        final(self).held() == old(self).held() + mono(input@.take(r as int), channels as int), 0 <= final(self).buffer_offset - old(self).buffer_offset <= r,
        old(self).buffer_offset < MAX_BUFFER_SIZE && input@.len() > 0 ==> r > 0,
        final(self).output_buffer == old(self).output_buffer, final(self).input == old(self).input, final(self).channels == old(self).channels, final(self).consumer == old(self).consumer, final(self).target_sample_rate == old(self).target_sample_rate, final(self).resampler == old(self).resampler
@at start
    let ghost o = *self;
    let ghost inp0 = input@;
    let ghost ch = channels as int;
    proof {
        lemma_div_nonneg(input@.len() as int, ch);
        if self.buffer_offset < MAX_BUFFER_SIZE && input@.len() > 0 { lemma_fundamental_div_mod(input@.len() as int, ch); assert(input@.len() as int / ch >= 1) by(nonlinear_arith) requires input@.len() as int == ch * (input@.len() as int / ch), input@.len() > 0, ch >= 1; }
    }
@after "let consumed = "
    proof {
        assert(consumed * ch <= (input@.len() as int / ch) * ch) by(nonlinear_arith) requires consumed <= input@.len() as int / ch, ch >= 1;
        assert(consumed * ch >= consumed) by(nonlinear_arith) requires consumed >= 0, ch >= 1;
        lemma_mod_multiples_basic(consumed as int, ch);
        lemma_div_multiples_vanish(consumed as int, ch);
        assert(ch * consumed == consumed * ch) by(nonlinear_arith);
        assert(consumed * ch > 0 <==> consumed > 0) by(nonlinear_arith) requires consumed >= 0, ch >= 1;
        assert(inp0.take(consumed * ch).take(consumed * ch) =~= inp0.take(consumed * ch));
        self.lemma_load_start(inp0.take(consumed * ch), ch);
    }
@loop 1
    invariant k1 <= n1, n1 == consumed, n1 == input@.len(), ch == 1, o.buffer_offset + n1 <= MAX_BUFFER_SIZE, self.loaded(&o, input@, ch, k1 as int),
    decreases n1 - k1
@at body 1
    let ghost q = *self;
@at tail 1
    proof {
        let f = input@.subrange(j1 * 1, j1 * 1 + 1);
        reveal_with_fuel(isum, 2);
        assert(f.len() == 1 && isum(f, 1) == f[0]);
        assert((-(f[0] as int)) / 1 == -(f[0] as int) && (f[0] as int) / 1 == f[0] as int);
        assert(mixed(f) == f[0]);
        self.lemma_load_step(&q, &o, input@, ch, j1 as int, f, f[0]);
    }
@loop 2
    invariant k2 <= n2, n2 == consumed, n2 * 2 == input@.len(), ch == 2, o.buffer_offset + n2 <= MAX_BUFFER_SIZE, self.loaded(&o, input@, ch, k2 as int),
    decreases n2 - k2
@at body 2
    let ghost q = *self;
    proof { lemma_mixed_range(input@.subrange(j2 * 2, j2 * 2 + 2)); reveal_with_fuel(isum, 3); }
@at tail 2
    proof { let f = input@.subrange(j2 * 2, j2 * 2 + 2); self.lemma_load_step(&q, &o, input@, ch, j2 as int, f, mixed(f)); }
@loop 3
    invariant k3 <= n3, n3 == consumed, n3 * channels == input@.len(), 1 <= channels <= u32::MAX, ch == channels, o.buffer_offset + n3 <= MAX_BUFFER_SIZE, self.loaded(&o, input@, ch, k3 as int),
    decreases n3 - k3
@at body 3
    let ghost q = *self;
    proof { assert((j3 + 1) * channels == j3 * channels + channels) by(nonlinear_arith); assert((j3 + 1) * channels <= n3 * channels) by(nonlinear_arith) requires j3 + 1 <= n3, channels >= 1; lemma_mixed_range(input@.subrange(j3 * channels, j3 * channels + channels)); }
@loop 4
    invariant k4 <= n4, n4 == sample@.len(), sample@ == input@.subrange(j3 * channels, j3 * channels + channels), n4 <= u32::MAX, acc_t1 == isum(sample@, k4 as int), -32768 * k4 <= acc_t1 <= 32767 * k4,
    decreases n4 - k4
@at tail 3
    proof { let f = input@.subrange(j3 * channels, j3 * channels + channels); self.lemma_load_step(&q, &o, input@, ch, j3 as int, f, mixed(f)); }
@fn audio_processor::AudioProcessor::resample
@spec
    requires old(self).ready(), is_end ==> 0 < old(self).buffer_offset < MAX_BUFFER_SIZE, !is_end ==> old(self).buffer_offset == MAX_BUFFER_SIZE, old(self).total() < SEEN_MAX
    ensures final(self).same(old(self)), final(self).buffer_offset == 0, 0 <= final(self).total() <= old(self).total(),
        !is_end ==> final(self).rs() == fwd(old(self).rs(), scaled(old(self).held())).0,
        Self::grew(&final(self).consumer, &old(self).consumer, old(self).out1(is_end))
@at start
    broadcast use {real_ax, seq_ax};
    let ghost o = *self;
    let ghost x = scaled(self.held());
    proof { C::lemma_aw(); assert(x.len() == self.buffer_offset); lemma_weight(x.len() as int, self.buffer_offset as int, C::aw()); }
@loop 1
    invariant k1 <= n1, n1 == o.buffer_offset, s_t1@ == o.held(), self.input@ == x.take(k1 as int), x == scaled(o.held()), x.len() == n1, self.buffer == o.buffer, self.buffer_offset == o.buffer_offset, self.channels == o.channels, self.consumer == o.consumer, self.target_sample_rate == o.target_sample_rate, self.resampler == o.resampler,
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax};
@at tail 1
    proof { assert(self.input@ =~= x.take(k1 as int)); }
@at after 1
    proof { assert(x.take(n1 as int) =~= x); }
@before "let default_input_frames"
    let ghost s0 = resampler.st();
    let ghost mut fin = false;
@loop 2
    invariant default_input_frames == MAX_BUFFER_SIZE, s0 == o.rs()->0, o.rs() is Some, x == scaled(o.held()), 0 < x.len() <= MAX_BUFFER_SIZE, x.len() == o.buffer_offset, Self::rs_ok(Some(s0)), is_end ==> x.len() < MAX_BUFFER_SIZE, !is_end ==> x.len() == MAX_BUFFER_SIZE,
        o.total() < SEEN_MAX, C::aw() >= 1, Self::fits(&o.consumer), Self::fits(&self.consumer), self.consumer.acfg() == o.consumer.acfg(), resampler.st0() == o.rs0()->0,
        !fin ==> self.input@ == x && resampler.st() == s0 && self.consumer == o.consumer,
        fin ==> self.input@.len() == 0 && Self::rs_ok(Some(resampler.st())) && 0 <= self.consumer.aseen() <= o.total() && (!is_end ==> resampler.st() == rs_next(s0, x))
            && Self::grew(&self.consumer, &o.consumer, o.out1(is_end)),
    ensures fin
    decreases self.input@.len()
@at body 2
    broadcast use {real_ax, seq_ax};
@before "self.consumer.consume"
    proof { lemma_weight(written_samples as int, o.buffer_offset as int, C::aw()); }
@at tail 2
    proof { fin = true; }
@fn audio_processor::AudioProcessor::reset
@spec
    requires old(self).ready()
    ensures
        // C10
        channels == 0 ==> r matches Err(ResetError::NoChannels),
        channels != 0 && sample_rate <= 1000 ==> r matches Err(ResetError::SampleRateTooLow),
        channels != 0 && sample_rate > 1000 ==> r is Ok,
        r is Err ==> *final(self) == *old(self),
        // C08
        r is Ok ==> final(self).ainv() && final(self).arepr(Seq::empty()) && final(self).acfg() == (channels as int, fresh_rs(old(self).target_sample_rate, sample_rate), old(self).consumer.acfg(), old(self).target_sample_rate) && final(self).total() == 0 && final(self).target_sample_rate == old(self).target_sample_rate
@at start
    broadcast use {real_ax, seq_ax};
    proof {
        C::lemma_aw(); lemma_weight(0, 1, C::aw());
        let (t, r) = (self.target_sample_rate as int as real, sample_rate as int as real);
        reveal(r_div);
        if sample_rate > 1000 { assert(0real < t / r < 12real) by(nonlinear_arith) requires 1real <= t < 12000real, r >= 1001real; }
    }
@at end
    proof {
        let ch = channels as int;
        assert(mono(Seq::<i16>::empty(), ch).len() == 0) by { assert(0int / ch == 0) by(nonlinear_arith) requires ch >= 1; }
        lemma_small_mod(0, ch as nat);
        assert(self.held() =~= mono(Seq::<i16>::empty(), ch).skip(0));
    }
@fn audio_processor::AudioProcessor::flush
@spec
    requires old(self).ainv(), old(self).total() < SEEN_MAX
    ensures final(self).ainv(), final(self).same(old(self)), final(self).buffer_offset == 0, 0 <= final(self).total() <= old(self).total(), forall|x: Seq<i16>| old(self).arepr(x) ==> #[trigger] final(self).frepr(x)
@at start
    let ghost o = *self;
    proof { C::lemma_aw(); lemma_weight(0, 1, C::aw()); }
@at end
    proof { if o.buffer_offset == 0 { assert forall|y: Seq<Real>| o.consumer.arepr(y) implies #[trigger] self.consumer.arepr(y + Seq::<Real>::empty()) by { assert(y + Seq::<Real>::empty() =~= y); } } else { let e = o.out1(true); } self.lemma_flushed(&o); }
@fn audio_processor::AudioProcessor.Stage::output
@fn audio_processor::AudioProcessor.AudioConsumer::reset
@fn audio_processor::AudioProcessor.AudioConsumer::flush
@fn audio_processor::AudioProcessor.AudioConsumer::consume
@at start
    let ghost o = *self;
    let ghost mut g: int = 0;
    let ghost ch = self.channels as int;
    proof { C::lemma_aw(); self.lemma_prog_start(); lemma_small_mod(0, ch as nat); assert(data@.take(0) =~= Seq::<i16>::empty()); }
@loop 1
    invariant self.same(&o), self.buffer_offset < MAX_BUFFER_SIZE, index <= data@.len(), ch == self.channels, 1 <= ch <= u32::MAX, (index as int) % ch == 0, data@.len() % (ch as nat) == 0, self.prog(&o, data@.take(index as int), g), 0 <= self.total() <= o.total() + index * (OUT_MAX * C::aw()), o.total() + data@.len() * (OUT_MAX * C::aw()) < SEEN_MAX, C::aw() >= 1,
    decreases data@.len() - index
@at body 1
    let ghost q = *self;
    let ghost i0 = index as int;
    proof { lemma_sub_mod_noop(data@.len() as int, index as int, ch); lemma_small_mod(0, ch as nat); }
@before "if self.buffer.len"
    let ghost l = *self;
    proof {
        let e = data@.skip(i0).take(index - i0);
        assert(data@.take(index as int) =~= data@.take(i0) + e);
        self.lemma_prog_load(&q, &o, data@.take(i0), e, g);
        lemma_add_mod_noop(i0, index - i0, ch);
        lemma_load_weight(q.consumer.aseen(), q.buffer_offset as int, self.buffer_offset as int, index - i0, OUT_MAX * C::aw(), i0, o.total(), data@.len() as int);
    }
@at tail 1
    proof { if l.buffer_offset == MAX_BUFFER_SIZE { self.lemma_prog_block(&l, &o, data@.take(index as int), g); g = g + 1; } }
@at end
    proof { assert(data@.take(data@.len() as int) =~= data@); self.lemma_prog_end(&o, data@, g); }
