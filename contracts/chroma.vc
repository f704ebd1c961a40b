@impl chroma::Chroma
    pub open spec fn fold(&self) -> Fold { Fold { interp: self.interpolate, lo: self.min_index as int, hi: self.max_index as int, notes: self.notes@, fracs: rvs(self.notes_frac@) } }
@impl chroma::Chroma.Stage
    open spec fn out_view(o: &Self::Output) -> Seq<u32> { C::out_view(o) }
    open spec fn view_out(&self) -> Seq<u32> { self.consumer.view_out() }
@impl chroma::Chroma.FeatureVectorConsumer
    type Cfg = (Fold, C::Cfg);
    open spec fn cfg(&self) -> Self::Cfg { (self.fold(), self.consumer.cfg()) }
    open spec fn len_ok(n: nat) -> bool { true }
    open spec fn inv(&self) -> bool { fold_ok(self.fold()) && C::len_ok(12) && self.consumer.inv() }
    open spec fn seen(&self) -> int { self.consumer.seen() }
    open spec fn repr(&self, h: Seq<Seq<real>>) -> bool { self.inv() && self.consumer.repr(fold_rows(self.fold(), h)) }
    open spec fn out_of(cfg: Self::Cfg, h: Seq<Seq<real>>) -> Seq<u32> { C::out_of(cfg.1, fold_rows(cfg.0, h)) }
    proof fn lemma_out(&self, h: Seq<Seq<real>>) { self.consumer.lemma_out(fold_rows(self.fold(), h)); }
@fn chroma::freq_to_index
@spec
    ensures r as int == line_of(freq as int, frame_size as int, sample_rate as int)
@at start
    broadcast use real_ax;
@fn chroma::index_to_freq
@spec
    ensures r@ == line_freq(i as int, frame_size as int, sample_rate as int)
@at start
    broadcast use real_ax;
@fn chroma::freq_to_octave
@spec
    ensures r@ == octave_of(freq@)
@at start
    broadcast use real_ax;
@fn chroma::Chroma::new
@spec
    requires C::len_ok(12), consumer.inv(), consumer.repr(Seq::empty())
    ensures r.inv(), r.repr(Seq::empty()), !r.interpolate, fold_for(r.fold(), min_freq as int, max_freq as int, frame_size as int, sample_rate as int), r.consumer == consumer
@at end
    proof { assert(fold_rows(__ret.fold(), Seq::empty()) =~= Seq::<Seq<real>>::empty()); }
@fn chroma::Chroma::with_interpolation
@spec
    requires self.inv()
    ensures r.inv(), self.repr(Seq::empty()) ==> r.repr(Seq::empty()), r.fold() == (Fold { interp: interpolate, ..self.fold() }), r.consumer == self.consumer
@at end
    proof { assert(fold_rows(__ret.fold(), Seq::empty()) =~= Seq::<Seq<real>>::empty()); assert(fold_rows(self.fold(), Seq::empty()) =~= Seq::<Seq<real>>::empty()); assert forall|i: int| __ret.fold().lo <= i < __ret.fold().hi implies #[trigger] __ret.fold().notes[i] < 12 by { assert(self.fold().notes[i] < 12); } }
@fn chroma::Chroma::prepare_notes
@spec
    requires old(self).notes@.len() == frame_size, old(self).notes_frac@.len() == frame_size
    ensures fold_ok(final(self).fold()), fold_for(final(self).fold(), min_freq as int, max_freq as int, frame_size as int, sample_rate as int), final(self).interpolate == old(self).interpolate, final(self).consumer == old(self).consumer
@at start
    broadcast use real_ax;
@loop 1
    invariant self.notes@.len() == frame_size, self.notes_frac@.len() == frame_size, self.min_index <= k1, k1 <= n1 || n1 <= self.min_index, n1 == self.max_index, self.max_index <= frame_size / 2,
        self.min_index == first_line(min_freq as int, frame_size as int, sample_rate as int), self.max_index == end_line(max_freq as int, frame_size as int, sample_rate as int),
        self.interpolate == old(self).interpolate, self.consumer == old(self).consumer,
        forall|i: int| self.min_index <= i < k1 ==> #[trigger] self.notes@[i] as int == pitch(line_freq(i, frame_size as int, sample_rate as int)).floor() && self.notes_frac@[i]@ == pitch(line_freq(i, frame_size as int, sample_rate as int)) - pitch(line_freq(i, frame_size as int, sample_rate as int)).floor() as real,
    decreases n1 - k1
@at body 1
    broadcast use real_ax;
    proof { lemma_pitch_range(line_freq(j1 as int, frame_size as int, sample_rate as int)); }
@at end
    proof {
        let f = self.fold();
        assert forall|i: int| f.lo <= i < f.hi implies #[trigger] f.notes[i] < 12 && 0real <= f.fracs[i] < 1real by { lemma_pitch_range(line_freq(i, frame_size as int, sample_rate as int)); assert(self.notes@[i] as int == pitch(line_freq(i, frame_size as int, sample_rate as int)).floor()); }
    }
@fn chroma::Chroma.Stage::output
@fn chroma::Chroma.FeatureVectorConsumer::reset
@at end
    proof { assert(fold_rows(self.fold(), Seq::empty()) =~= Seq::<Seq<real>>::empty()); }
@fn chroma::Chroma.FeatureVectorConsumer::consume
@at start
    broadcast use {real_ax, seq_ax};
    let ghost o = *self;
@loop 1
    invariant self.min_index <= k1, n1 == fold_end(f, rvs(frame@)), f == self.fold(), fold_ok(f), self.features@.len() == 12, self.consumer == o.consumer,
        k1 <= n1 || k1 == self.min_index, n1 <= frame@.len(), n1 <= self.max_index,
        forall|b: int| 0 <= b < 12 ==> (#[trigger] self.features@[b])@ == band(f, rvs(frame@), b, k1 as int),
    decreases n1 - k1
@at before 1
    let ghost f = self.fold();
    proof { assert(forall|b: int| 0 <= b < 12 ==> (#[trigger] self.features@[b])@ == 0real); }
@at body 1
    broadcast use {real_ax, seq_ax};
    let ghost p = self.features@;
    proof { assert(f.notes[j1 as int] < 12); assert(rvs(frame@)[j1 as int] == frame@[j1 as int]@); assert(f.fracs[j1 as int] == self.notes_frac@[j1 as int]@); }
@at tail 1
    proof {
        assert forall|b: int| 0 <= b < 12 implies (#[trigger] self.features@[b])@ == band(f, rvs(frame@), b, k1 as int) by {
            assert(p[b]@ == band(f, rvs(frame@), b, j1 as int));
            assert(self.features@[b]@ == p[b]@ + share(f, j1 as int, frame@[j1 as int]@, b));
        }
    }
@at end
    proof {
        let s = rvs(frame@);
        assert(rvs(self.features@) =~= fold_row(self.fold(), s)) by {
            assert forall|b: int| 0 <= b < 12 implies (#[trigger] self.features@[b])@ == band(self.fold(), s, b, fold_end(self.fold(), s)) by { }
        }
        assert forall|h: Seq<Seq<real>>| o.repr(h) implies #[trigger] self.repr(h.push(s)) by {
            assert(fold_rows(self.fold(), h).push(fold_row(self.fold(), s)) =~= fold_rows(self.fold(), h.push(s)));
        }
    }
