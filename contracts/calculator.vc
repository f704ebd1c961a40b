@impl fingerprint_calculator::FingerprintCalculator.Stage
    open spec fn out_view(o: &Self::Output) -> Seq<u32> { o@ }
    open spec fn view_out(&self) -> Seq<u32> { self.fingerprint@ }
@impl fingerprint_calculator::FingerprintCalculator.FeatureVectorConsumer
    type Cfg = Seq<Classifier>;
    open spec fn cfg(&self) -> Self::Cfg { self.classifiers@ }
    open spec fn len_ok(n: nat) -> bool { n == 12 }
    open spec fn inv(&self) -> bool { cls_wf(self.classifiers@) && self.max_filter_width == max_width(self.classifiers@) && self.image.base() && self.image.max_rows == 256 && (self.image.columns == 0 || self.image.columns == 12) }
    open spec fn seen(&self) -> int { self.image.rows as int }
    open spec fn repr(&self, h: Seq<Seq<real>>) -> bool { self.inv() && self.image.repr(h) && self.fingerprint@ == items_of(self.classifiers@, h) }
    open spec fn out_of(cfg: Self::Cfg, h: Seq<Seq<real>>) -> Seq<u32> { items_of(cfg, h) }
    proof fn lemma_out(&self, h: Seq<Seq<real>>) { }
@fn fingerprint_calculator::FingerprintCalculator::new
@spec
    requires cls_wf(classifiers@)
    ensures r.inv(), r.repr(Seq::empty()), r.cfg() == classifiers@
@at start
    broadcast use {real_ax, seq_ax};
    proof { lemma_max_width_pos(classifiers@); }
@loop 1
    invariant k1 <= n1, n1 == classifiers@.len(), cls_wf(classifiers@),
        k1 == 0 ==> acc_t1 is None,
        k1 > 0 ==> acc_t1 is Some && acc_t1->0 as int == max_width(classifiers@.take(k1 as int)),
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax};
    proof { assert(classifiers@.take(k1 as int).drop_last() =~= classifiers@.take(j1 as int)); assert(classifiers@.take(k1 as int).last() == classifiers@[j1 as int]); assert(j1 == 0 ==> max_width(classifiers@.take(0)) == 0); }
@at end
    proof { assert(items_of(classifiers@, Seq::empty()) =~= Seq::<u32>::empty()); }
@fn fingerprint_calculator::FingerprintCalculator.Stage::output
@fn fingerprint_calculator::FingerprintCalculator.FeatureVectorConsumer::reset
@at start
    proof { lemma_max_width_pos(self.classifiers@); }
@at end
    proof { assert(items_of(self.classifiers@, Seq::empty()) =~= Seq::<u32>::empty()); }
@fn fingerprint_calculator::FingerprintCalculator.FeatureVectorConsumer::consume
@at start
    broadcast use {real_ax, seq_ax};
    let ghost o = *self;
    let ghost f0 = rvs(features@);
    let ghost cs = self.classifiers@;
    let ghost w = max_width(self.classifiers@);
    proof { lemma_max_width_pos(cs); }
@before "if self.image.rows"
    proof {
        if self.image.rows >= w {
            let x = self.image.rows - w;
            assert forall|k: int| 0 <= k < cs.len() implies filter_ok((#[trigger] cs[k]).filter, &self.image, x) by { lemma_max_width(cs, k); }
        }
    }
@at end
    proof {
        let x = self.image.rows - w;
        assert forall|h: Seq<Seq<real>>| o.repr(h) implies #[trigger] self.repr(h.push(f0)) by {
            let g = h.push(f0);
            lemma_items_push(cs, h, f0);
            assert(self.image.repr(g));
            if self.image.rows >= w {
                assert forall|k: int| 0 <= k < cs.len() implies filter_ok((#[trigger] cs[k]).filter, &self.image, x) && cs[k].filter.width <= w by { lemma_max_width(cs, k); }
                lemma_item_val(cs, self.image, g, x, w);
            }
        }
    }
