@impl chroma_normalizer::ChromaNormalizer.Stage
    open spec fn out_view(o: &Self::Output) -> Seq<u32> { C::out_view(o) }
    open spec fn view_out(&self) -> Seq<u32> { self.consumer.view_out() }
@impl chroma_normalizer::ChromaNormalizer.FeatureVectorConsumer
    type Cfg = C::Cfg;
    open spec fn cfg(&self) -> Self::Cfg { self.consumer.cfg() }
    open spec fn len_ok(n: nat) -> bool { C::len_ok(n) }
    open spec fn inv(&self) -> bool { self.consumer.inv() }
    open spec fn seen(&self) -> int { self.consumer.seen() }
    open spec fn repr(&self, h: Seq<Seq<real>>) -> bool { self.consumer.repr(norm_rows(h)) }
    open spec fn out_of(cfg: Self::Cfg, h: Seq<Seq<real>>) -> Seq<u32> { C::out_of(cfg, norm_rows(h)) }
    proof fn lemma_out(&self, h: Seq<Seq<real>>) { self.consumer.lemma_out(norm_rows(h)); }
@fn chroma_normalizer::ChromaNormalizer::new
@spec
    ensures r.consumer == consumer
@fn chroma_normalizer::ChromaNormalizer.Stage::output
@fn chroma_normalizer::ChromaNormalizer.FeatureVectorConsumer::reset
@at end
    proof { assert(norm_rows(Seq::empty()) =~= Seq::<Seq<real>>::empty()); }
@fn chroma_normalizer::ChromaNormalizer.FeatureVectorConsumer::consume
@at start
    broadcast use {real_ax, seq_ax};
    let ghost f0 = rvs(features@);
    let ghost o0 = features@;
@before "normalize("
    assert(forall|i: int| 0 <= i < o0.len() ==> cloned(o0[i], #[trigger] features@[i]));
    assert(features@ =~= o0);
@at end
    proof {
        let g = rvs(features@);
        assert(g =~= normalized(f0));
        assert forall|h: Seq<Seq<real>>| old(self).repr(h) implies #[trigger] self.repr(h.push(f0)) by {
            assert(norm_rows(h).push(g) =~= norm_rows(h.push(f0)));
        }
    }
@fn chroma_normalizer::normalize
@spec
    requires true
    ensures final(values)@.len() == old(values)@.len(), rvs(final(values)@) =~= normalized_eps(rvs(old(values)@), eps@)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost v0 = values@;
@loop 1
    invariant k1 <= n1, n1 == v0.len(), values@ == v0, acc_t1@ == sq_sum(rvs(v0.take(k1 as int))),
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax, sq_ax};
@at tail 1
    proof { assert(rvs(v0.take(k1 as int)).drop_last() =~= rvs(v0.take(j1 as int))); assert(rvs(v0.take(k1 as int)).last() == v0[j1 as int]@); }
@loop 2
    invariant k2 <= n2, n2 == v0.len(), values@.len() == v0.len(), norm@ == norm_of(rvs(v0)), !(norm_of(rvs(v0)) < eps@),
        forall|i: int| 0 <= i < k2 ==> #[trigger] values@[i]@ == r_div(v0[i]@, norm@),
        forall|i: int| k2 <= i < v0.len() ==> #[trigger] values@[i] == v0[i],
    decreases n2 - k2
@at body 2
    broadcast use {real_ax, seq_ax};
