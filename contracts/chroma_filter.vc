@impl chroma_filter::ChromaFilter
    pub open spec fn cf(&self) -> Seq<real> { rvs(self.coefficients@) }
    pub open spec fn shape(&self) -> bool { C::len_ok(12) && 1 <= self.coefficients@.len() <= 8 && self.buffer_offset < 8 && 1 <= self.buffer_size <= self.coefficients@.len() }
    pub open spec fn holds(&self, h: Seq<Seq<real>>) -> bool {
        &&& self.buffer_offset == h.len() % 8
        &&& self.buffer_size == if h.len() + 1 < self.coefficients@.len() { h.len() + 1 } else { self.coefficients@.len() }
        &&& bufok(self.buffer@, h)
    }
@impl chroma_filter::ChromaFilter.Stage
    open spec fn out_view(o: &Self::Output) -> Seq<u32> { C::out_view(o) }
    open spec fn view_out(&self) -> Seq<u32> { self.consumer.view_out() }
@impl chroma_filter::ChromaFilter.FeatureVectorConsumer
    type Cfg = (Seq<real>, C::Cfg);
    open spec fn cfg(&self) -> Self::Cfg { (self.cf(), self.consumer.cfg()) }
    open spec fn len_ok(n: nat) -> bool { n == 12 }
    open spec fn inv(&self) -> bool { self.shape() && self.consumer.inv() }
    open spec fn seen(&self) -> int { self.consumer.seen() }
    open spec fn repr(&self, h: Seq<Seq<real>>) -> bool { self.shape() && self.holds(h) && self.consumer.repr(filt_rows(self.cf(), h)) }
    open spec fn out_of(cfg: Self::Cfg, h: Seq<Seq<real>>) -> Seq<u32> { C::out_of(cfg.1, filt_rows(cfg.0, h)) }
    proof fn lemma_out(&self, h: Seq<Seq<real>>) { self.consumer.lemma_out(filt_rows(self.cf(), h)); }
@fn chroma_filter::ChromaFilter::new
@spec
    requires C::len_ok(12), 1 <= coefficients@.len() <= 8, consumer.inv(), consumer.repr(Seq::empty())
    ensures r.inv(), r.repr(Seq::empty()), r.cfg() == (rvs(coefficients@), consumer.cfg()), r.consumer == consumer
@at end
    proof { assert(filt_rows(__ret.cf(), Seq::empty()) =~= Seq::<Seq<real>>::empty()); }
@fn chroma_filter::ChromaFilter.Stage::output
@fn chroma_filter::ChromaFilter.FeatureVectorConsumer::reset
@at end
    proof { assert(filt_rows(self.cf(), Seq::empty()) =~= Seq::<Seq<real>>::empty()); }
@fn chroma_filter::ChromaFilter.FeatureVectorConsumer::consume
@at start
    broadcast use {real_ax, seq_ax};
    let ghost o = *self;
    let ghost f0 = rvs(features@);
@before "if self.buffer_size"
    let ghost n = self.coefficients@.len() as int;
    let ghost c = self.cf();
    let ghost bo = o.buffer_offset as int;
    proof {
        assert(rvs(self.buffer@[bo]@) =~= f0);
        assert forall|h: Seq<Seq<real>>| #[trigger] o.repr(h) implies bufok(self.buffer@, h.push(f0)) by { lemma_bufok_push(o.buffer@, self.buffer@, h, f0); }
    }
@loop 1
    invariant k1 <= n1, n1 == 12, n == self.coefficients@.len(), 1 <= n <= 8, c == rvs(self.coefficients@), offset < 8, offset == (self.buffer_offset + 8 - n) % 8,
        w == window(self.buffer@, offset as int, n),
        self.coefficients == o.coefficients, self.consumer == o.consumer, self.buffer_offset == (bo + 1) % 8, self.buffer_size == o.buffer_size, self.buffer == buf,
        forall|b: int| 0 <= b < k1 ==> (#[trigger] self.result@[b])@ == wsum(c, w, 0, b, n),
        forall|b: int| k1 <= b < 12 ==> (#[trigger] self.result@[b])@ == 0real,
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax};
@at before 1
    let ghost w = window(self.buffer@, offset as int, n);
    let ghost buf = self.buffer;
    proof { assert forall|b: int| 0 <= b < 12 implies (#[trigger] self.result@[b])@ == 0real by { } }
@loop 2
    invariant k2 <= n2, n2 == n, i == j1, j1 < 12, k1 == j1 + 1, n == self.coefficients@.len(), 1 <= n <= 8, c == rvs(self.coefficients@), offset < 8, offset == (self.buffer_offset + 8 - n) % 8,
        w == window(self.buffer@, offset as int, n),
        self.coefficients == o.coefficients, self.consumer == o.consumer, self.buffer_offset == (bo + 1) % 8, self.buffer_size == o.buffer_size, self.buffer == buf,
        forall|b: int| 0 <= b < j1 ==> (#[trigger] self.result@[b])@ == wsum(c, w, 0, b, n),
        forall|b: int| j1 < b < 12 ==> (#[trigger] self.result@[b])@ == 0real,
        self.result@[j1 as int]@ == wsum(c, w, 0, j1 as int, k2 as int),
    decreases n2 - k2
@at body 2
    broadcast use {real_ax, seq_ax};
@at end
    proof {
        if o.buffer_size >= n {
            let g = rvs(self.result@);
            assert forall|h: Seq<Seq<real>>| o.repr(h) implies #[trigger] self.repr(h.push(f0)) by {
                let hh = h.push(f0);
                lemma_filt_push(c, h, f0); lemma_mod8(h.len() as int); assert(self.buffer_offset == hh.len() % 8);
                lemma_window(self.buffer@, hh, c, (self.buffer_offset as int + 8 - n) % 8);
                assert(g =~= filt_row(c, hh, hh.len() - n));
                assert(self.consumer.repr(filt_rows(c, h).push(g)));
            }
        } else {
            assert forall|h: Seq<Seq<real>>| o.repr(h) implies #[trigger] self.repr(h.push(f0)) by { lemma_filt_push(c, h, f0); lemma_mod8(h.len() as int); }
        }
    }
