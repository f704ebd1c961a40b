@impl fingerprinter::Fingerprinter
    // created for the configuration k
    pub open spec fn is_for(&self, k: FpConf) -> bool {
        let c = self.processor.consumer.acfg();
        &&& c.0 == k.fs && c.1 == k.inc && c.2.1.0 == k.coef && c.2.1.1 == k.cls && c.2.0.interp == k.interp
        &&& fold_for(c.2.0, MIN_FREQ as int, MAX_FREQ as int, k.fs, DEFAULT_SAMPLE_RATE as int) && fold_ok(c.2.0) && k.fs >= 1
    }
    pub open spec fn inv(&self) -> bool { self.processor.ainv() && self.processor.target_sample_rate == DEFAULT_SAMPLE_RATE }
    // bound on the work done since the last start
    pub open spec fn work(&self) -> int { self.processor.total() }
    // started with this rate and channel count, then exactly x was consumed, in whatever pieces
    pub open spec fn stream(&self, rate: u32, ch: u32, x: Seq<i16>) -> bool { self.inv() && self.processor.arepr(x) && self.processor.channels == ch && self.processor.rs0() == fresh_rs(DEFAULT_SAMPLE_RATE, rate) }
    // .. and finished
    pub open spec fn done(&self, rate: u32, ch: u32, x: Seq<i16>) -> bool { self.inv() && self.processor.frepr(x) && self.processor.channels == ch && self.processor.rs0() == fresh_rs(DEFAULT_SAMPLE_RATE, rate) }
    pub open spec fn can(&self, n: nat) -> bool { self.processor.data_ok(n) }
    pub open spec fn items(&self) -> Seq<u32> { self.processor.view_out() }
    pub proof fn lemma_done(&self, k: FpConf, rate: u32, ch: u32, x: Seq<i16>)
        requires self.done(rate, ch, x), self.is_for(k)
        ensures self.items() == fp_of(k, rate, ch as int, x)
    {
        self.processor.lemma_fout(x);
        let c = self.processor.consumer.acfg();
        lemma_the_fold(c.2.0, k.fs, rows_of(rvs(fp_samples(rate, ch as int, x)), k.fs, k.inc));
    }
    pub proof fn lemma_started(&self, k: FpConf, rate: u32, ch: u32)
        requires self.stream(rate, ch, Seq::empty()), self.is_for(k), cls_wf(k.cls), k.fs >= 1
        ensures self.items() == Seq::<u32>::empty()
    {
        self.processor.lemma_aout(Seq::empty());
        lemma_max_width_pos(k.cls);
        assert(mono(Seq::<i16>::empty(), ch as int).len() == 0) by { assert(0int / (ch as int) == 0) by(nonlinear_arith) requires ch as int >= 1; }
        assert(self.items().len() == 0);
    }
@fn fingerprinter::Fingerprinter::new
@spec
    requires conf_ok(config)
    ensures r.inv(), r.is_for(conf_of(config)), r.work() == 0
@at start
    broadcast use {real_ax, seq_ax};
    proof { assert(norm_rows(Seq::empty()) =~= Seq::<Seq<real>>::empty()); }
@fn fingerprinter::Fingerprinter::start
@spec
    requires old(self).inv()
    ensures final(self).inv(), forall|k: FpConf| old(self).is_for(k) ==> #[trigger] final(self).is_for(k),
        // C10
        channels == 0 ==> r matches Err(ResetError::NoChannels),
        channels != 0 && sample_rate <= 1000 ==> r matches Err(ResetError::SampleRateTooLow),
        channels != 0 && sample_rate > 1000 ==> r is Ok,
        r is Err ==> *final(self) == *old(self),
        // C08
        r is Ok ==> final(self).stream(sample_rate, channels, Seq::empty()) && final(self).work() == 0
@fn fingerprinter::Fingerprinter::consume
@spec
    requires old(self).inv(), old(self).can(data@.len()), 0 <= old(self).work(), old(self).work() + data@.len() * OUT_MAX < SEEN_MAX
    ensures final(self).inv(), forall|k: FpConf| old(self).is_for(k) ==> #[trigger] final(self).is_for(k), 0 <= final(self).work() <= old(self).work() + data@.len() * OUT_MAX,
        forall|n: nat| old(self).can(n) ==> #[trigger] final(self).can(n),
        forall|rate: u32, ch: u32, x: Seq<i16>| old(self).stream(rate, ch, x) ==> #[trigger] final(self).stream(rate, ch, x + data@)
@fn fingerprinter::Fingerprinter::finish
@spec
    requires old(self).inv(), 0 <= old(self).work() < SEEN_MAX
    ensures final(self).inv(), forall|k: FpConf| old(self).is_for(k) ==> #[trigger] final(self).is_for(k), 0 <= final(self).work() <= old(self).work(),
        forall|n: nat| old(self).can(n) ==> #[trigger] final(self).can(n),
        forall|rate: u32, ch: u32, x: Seq<i16>| old(self).stream(rate, ch, x) ==> #[trigger] final(self).done(rate, ch, x)
@fn fingerprinter::Fingerprinter::fingerprint
@spec
    ensures r@ == self.items()
