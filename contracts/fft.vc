@impl fft::Fft
    pub open spec fn inc(&self) -> int { self.frame_size - self.frame_overlap }
    pub open spec fn shape(&self) -> bool {
        let n = self.frame_size;
        &&& 1 <= n && self.frame_overlap < n && C::len_ok((1 + n / 2) as nat) && self.consumer.inv()
        &&& self.fft_buffer_complex@.len() == n && self.fft_frame@.len() == 1 + n / 2 && self.window@.len() == n
        &&& self.fft_plan.size() == n && self.fft_scratch@.len() >= self.fft_plan.scratch()
        &&& self.fft_frame@[n as int / 2]@ == 0real
        &&& hwin(self.window@, 1real, n as int, n as int)
    }
    // m frames of the stream y have been processed
    pub open spec fn mid(&self, y: Seq<real>, m: int) -> bool { taken(y, rvs(self.ring_buf@), self.frame_size as int, self.inc(), m) && self.consumer.repr(spectra(y, self.frame_size as int, self.inc(), m)) }
    // everything but the samples and the consumer's state is as in o
    pub open spec fn same(&self, o: &Self) -> bool { self.shape() && self.frame_size == o.frame_size && self.frame_overlap == o.frame_overlap && self.consumer.cfg() == o.consumer.cfg() }
    pub open spec fn midx(&self, x: Seq<Real>, d: Seq<Real>, g: int) -> bool { self.mid(rvs(x + d), frame_count(x.len() as int, self.frame_size as int, self.inc()) + g) }
    // starting from o, the samples d were appended and g frames were processed since
    pub open spec fn prog(&self, o: &Self, d: Seq<Real>, g: int) -> bool { g >= 0 && forall|x: Seq<Real>| o.arepr(x) ==> #[trigger] self.midx(x, d, g) }
    pub proof fn lemma_prog_start(&self, o: &Self, d: Seq<Real>)
        requires self.same(o), self.consumer == o.consumer, self.ring_buf@ == o.ring_buf@ + d
        ensures self.prog(o, d, 0)
    {
        assert forall|x: Seq<Real>| o.arepr(x) implies #[trigger] self.midx(x, d, 0) by {
            lemma_stream_append(x, d, o.ring_buf@, self.ring_buf@, self.frame_size as int, self.inc(), frame_count(x.len() as int, self.frame_size as int, self.inc()));
        }
    }
    pub proof fn lemma_prog_step(&self, q: &Self, o: &Self, d: Seq<Real>, g: int, f: Seq<Real>)
        requires q.prog(o, d, g), q.same(o), self.same(o), q.ring_buf@.len() >= q.frame_size, self.ring_buf@ == q.ring_buf@.skip(self.inc()),
            rvs(f) == spectrum(rvs(q.ring_buf@).take(self.frame_size as int)),
            forall|h: Seq<Seq<real>>| q.consumer.repr(h) ==> #[trigger] self.consumer.repr(h.push(rvs(f)))
        ensures self.prog(o, d, g + 1)
    {
        assert forall|x: Seq<Real>| o.arepr(x) implies #[trigger] self.midx(x, d, g + 1) by {
            assert(q.midx(x, d, g));
            let m = frame_count(x.len() as int, self.frame_size as int, self.inc()) + g;
            assert(rvs(self.ring_buf@) =~= rvs(q.ring_buf@).skip(self.inc()));
            lemma_taken_start(rvs(x), self.frame_size as int, self.inc());
            lemma_taken_step(rvs(x + d), rvs(q.ring_buf@), rvs(self.ring_buf@), self.frame_size as int, self.inc(), m);
        }
    }
    pub proof fn lemma_prog_end(&self, o: &Self, d: Seq<Real>, g: int)
        requires self.prog(o, d, g), self.same(o), self.ring_buf@.len() < self.frame_size, self.consumer.seen() >= 0
        ensures forall|x: Seq<Real>| o.arepr(x) ==> #[trigger] self.arepr(x + d)
    {
        assert forall|x: Seq<Real>| o.arepr(x) implies #[trigger] self.arepr(x + d) by {
            assert(self.midx(x, d, g));
            lemma_taken_start(rvs(x), self.frame_size as int, self.inc());
            lemma_taken_end(rvs(x + d), rvs(self.ring_buf@), self.frame_size as int, self.inc(), frame_count(x.len() as int, self.frame_size as int, self.inc()) + g);
        }
    }
    // the transform buffer holds the first k windowed samples
    pub open spec fn filled(&self, k: int) -> bool { self.fft_buffer_complex@.len() == self.frame_size && forall|i: int| 0 <= i < k ==> (#[trigger] self.fft_buffer_complex@[i]).re@ == r_mul(self.ring_buf@[i]@, hamming(self.frame_size as int, i)) && self.fft_buffer_complex@[i].im@ == 0real }
    pub open spec fn powered(&self, k: int) -> bool { self.fft_frame@.len() == 1 + self.frame_size / 2 && self.fft_frame@[self.frame_size as int / 2]@ == 0real && forall|i: int| 0 <= i < k ==> (#[trigger] self.fft_frame@[i])@ == r_mul(self.fft_buffer_complex@[i].re@, self.fft_buffer_complex@[i].re@) + r_mul(self.fft_buffer_complex@[i].im@, self.fft_buffer_complex@[i].im@) }
    pub proof fn lemma_windowed(&self)
        requires self.filled(self.frame_size as int), self.frame_size <= self.ring_buf@.len()
        ensures cviews(self.fft_buffer_complex@) == windowed(rvs(self.ring_buf@).take(self.frame_size as int))
    { assert(cviews(self.fft_buffer_complex@) =~= windowed(rvs(self.ring_buf@).take(self.frame_size as int))); }
    pub proof fn lemma_spectrum(&self)
        requires self.powered(self.frame_size as int / 2), self.frame_size <= self.ring_buf@.len(), self.fft_buffer_complex@.len() == self.frame_size, cviews(self.fft_buffer_complex@) == dft(windowed(rvs(self.ring_buf@).take(self.frame_size as int)))
        ensures rvs(self.fft_frame@) == spectrum(rvs(self.ring_buf@).take(self.frame_size as int))
    {
        let x = rvs(self.ring_buf@).take(self.frame_size as int);
        let c = cviews(self.fft_buffer_complex@);
        assert forall|i: int| 0 <= i < self.fft_frame@.len() implies #[trigger] rvs(self.fft_frame@)[i] == spectrum(x)[i] by { if i < self.frame_size / 2 { assert(c[i] == (self.fft_buffer_complex@[i].re@, self.fft_buffer_complex@[i].im@)); assert(self.fft_frame@[i]@ == rvs(self.fft_frame@)[i]); } }
        assert(rvs(self.fft_frame@) =~= spectrum(x));
    }
@impl fft::Fft.Stage
    open spec fn out_view(o: &Self::Output) -> Seq<u32> { C::out_view(o) }
    open spec fn view_out(&self) -> Seq<u32> { self.consumer.view_out() }
@impl fft::Fft.AudioConsumer
    type ACfg = (int, int, C::Cfg);
    open spec fn acfg(&self) -> Self::ACfg { (self.frame_size as int, self.inc(), self.consumer.cfg()) }
    open spec fn ainv(&self) -> bool { self.shape() && self.ring_buf@.len() < self.frame_size && self.consumer.seen() >= 0 }
    open spec fn reset_ok(&self) -> bool { true }
    open spec fn data_ok(&self, n: nat) -> bool { true }
    open spec fn aseen(&self) -> int { self.consumer.seen() + self.ring_buf@.len() }
    open spec fn aw() -> int { 1 }
    proof fn lemma_aw() { }
    open spec fn arepr(&self, x: Seq<Real>) -> bool { self.ainv() && self.mid(rvs(x), frame_count(x.len() as int, self.frame_size as int, self.inc())) }
    open spec fn aout_of(cfg: Self::ACfg, x: Seq<Real>) -> Seq<u32> { C::out_of(cfg.2, rows_of(rvs(x), cfg.0, cfg.1)) }
    proof fn lemma_aout(&self, x: Seq<Real>) { self.consumer.lemma_out(rows_of(rvs(x), self.frame_size as int, self.inc())); }
@fn fft::make_hamming_window
@spec
    requires size >= 1
    ensures hwin(r@, scale@, size as int, size as int)
@at start
    broadcast use {real_ax, seq_ax};
@loop 1
    invariant k1 <= n1, n1 == size, hwin(window@, scale@, size as int, k1 as int)
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax};
@fn fft::Fft::new
@spec
    requires 1 <= frame_size < 0x1_0000_0000, frame_overlap < frame_size, C::len_ok((1 + frame_size / 2) as nat), 0 <= consumer.seen(), consumer.inv(), consumer.repr(Seq::empty())
    ensures r.ainv(), r.arepr(Seq::empty()), r.acfg() == (frame_size as int, frame_size - frame_overlap, consumer.cfg()), r.consumer == consumer, r.aseen() == 0
@at start
    broadcast use {real_ax, seq_ax};
@at end
    proof {
        consumer.lemma_out(Seq::empty());
        assert(spectra(Seq::empty(), frame_size as int, frame_size - frame_overlap, 0) =~= Seq::<Seq<real>>::empty());
        assert(rvs(Seq::<Real>::empty()) =~= Seq::<real>::empty());
        assert(rvs(__ret.ring_buf@) =~= rvs(Seq::<Real>::empty()).skip(0));
    }
@fn fft::Fft.Stage::output
@fn fft::Fft.AudioConsumer::reset
@at start
    broadcast use {real_ax, seq_ax};
@at end
    proof {
        assert(spectra(Seq::empty(), self.frame_size as int, self.inc(), 0) =~= Seq::<Seq<real>>::empty());
        assert(rvs(Seq::<Real>::empty()) =~= Seq::<real>::empty());
        assert(rvs(self.ring_buf@) =~= rvs(Seq::<Real>::empty()).skip(0));
    }
@fn fft::Fft.AudioConsumer::flush
@fn fft::Fft.AudioConsumer::consume
@at start
    broadcast use {real_ax, seq_ax};
    let ghost o = *self;
    let ghost mut g: int = 0;
@loop 1
    invariant k1 <= n1, n1 == data@.len(), self.same(&o), self.consumer == o.consumer, self.ring_buf@ == o.ring_buf@ + data@.take(k1 as int),
    decreases n1 - k1
@at tail 1
    proof { assert(self.ring_buf@ =~= o.ring_buf@ + data@.take(k1 as int)); }
@at after 1
    proof { assert(data@.take(k1 as int) =~= data@); self.lemma_prog_start(&o, data@); }
@loop 2
    invariant self.same(&o), self.prog(&o, data@, g), 0 <= self.consumer.seen(), self.consumer.seen() + self.ring_buf@.len() <= o.consumer.seen() + o.ring_buf@.len() + data@.len(), o.consumer.seen() + o.ring_buf@.len() + data@.len() < SEEN_MAX,
    decreases self.ring_buf@.len()
@at body 2
    broadcast use {real_ax, seq_ax};
    let ghost q = *self;
@loop 3
    invariant k3 <= n3, n3 == self.frame_size, self.same(&o), self.ring_buf == q.ring_buf, self.consumer == q.consumer, self.frame_size <= self.ring_buf@.len(), self.filled(k3 as int),
    decreases n3 - k3
@at body 3
    broadcast use {real_ax, seq_ax};
@at after 3
    proof { self.lemma_windowed(); }
@loop 4
    invariant k4 <= n4, n4 == self.frame_size / 2, self.same(&o), self.ring_buf == q.ring_buf, self.consumer == q.consumer, self.powered(k4 as int), cviews(self.fft_buffer_complex@) == dft(windowed(rvs(self.ring_buf@).take(self.frame_size as int))),
    decreases n4 - k4
@at body 4
    broadcast use {real_ax, seq_ax};
@at after 4
    proof { self.lemma_spectrum(); }
@at tail 2
    proof { self.lemma_prog_step(&q, &o, data@, g, self.fft_frame@); g = g + 1; }
@at end
    proof { self.lemma_prog_end(&o, data@, g); }
