@fn quantize::Quantizer::new
@spec
    ensures r.t0 == t0, r.t1 == t1, r.t2 == t2
@fn quantize::Quantizer::quantize
@spec
    ensures r as int == quant(val@, self.t0@, self.t1@, self.t2@)
@at start
    broadcast use real_ax;
@fn classifier::Classifier::new
@spec
    ensures r.filter == filter, r.quantizer == quantizer
@fn classifier::Classifier::classify
@spec
    requires filter_ok(self.filter, image, offset as int)
    ensures r as int == cls_val(*self, image, offset as int)
@fn classifier::Classifier::filter
@spec
    ensures *r == self.filter
@fn fingerprint_calculator::gray_code
@spec
    requires i < 4
    ensures r as int == gray(i as int)
@at start
    assert(forall|a: u32| a < 4 ==> #[trigger] (a >> 1) == a / 2) by (bit_vector);
    assert(0u32 ^ 0 == 0 && 1u32 ^ 0 == 1 && 2u32 ^ 1 == 3 && 3u32 ^ 1 == 2) by (bit_vector);
@fn fingerprint_calculator::FingerprintCalculator::calculate_subfingerprint
@spec
    requires forall|k: int| 0 <= k < self.classifiers@.len() ==> filter_ok((#[trigger] self.classifiers@[k]).filter, &self.image, offset as int)
    ensures r as int == item_val(self.classifiers@, &self.image, offset as int)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost cs = self.classifiers@;
@loop 1
    invariant k1 <= n1, n1 == cs.len(), cs == self.classifiers@,
        forall|k: int| 0 <= k < cs.len() ==> filter_ok((#[trigger] cs[k]).filter, &self.image, offset as int),
        bits as int == item_val(cs.take(k1 as int), &self.image, offset as int),
    decreases n1 - k1
@at body 1
    let ghost b0 = bits;
@at tail 1
    proof {
        assert(cs.take(k1 as int).drop_last() =~= cs.take(j1 as int));
        assert(cs.take(k1 as int).last() == cs[j1 as int]);
        let g = gray(cls_val(cs[j1 as int], &self.image, offset as int));
        lemma_shl_or(b0, g as u32);
    }
