@fn fingerprinter::CHROMA_FILTER_COEFFICIENTS
@spec
    ensures r@.len() == 5
@fn fingerprinter::CLASSIFIER_TEST1
@spec
    ensures cls_preset(r@)
@at start
    broadcast use {real_ax, seq_ax};
@at end
    proof { lemma_preset(__ret@); }
@fn fingerprinter::CLASSIFIER_TEST2
@spec
    ensures cls_preset(r@)
@at start
    broadcast use {real_ax, seq_ax};
@at end
    proof { lemma_preset(__ret@); }
@fn fingerprinter::CLASSIFIER_TEST3
@spec
    ensures cls_preset(r@)
@at start
    broadcast use {real_ax, seq_ax};
@at end
    proof { lemma_preset(__ret@); }
@fn fingerprinter::Configuration::with_id
@spec
    ensures r == (Configuration { id: id, ..self })
@fn fingerprinter::Configuration::with_coefficients
@spec
    ensures r == (Configuration { filter_coefficients: coefficients, ..self })
@fn fingerprinter::Configuration::with_interpolation
@spec
    ensures r == (Configuration { interpolate: interpolate, ..self })
@fn fingerprinter::Configuration::with_frame_size
@spec
    ensures r == (Configuration { frame_size: frame_size, ..self })
@fn fingerprinter::Configuration::with_frame_overlap
@spec
    ensures r == (Configuration { frame_overlap: frame_overlap, ..self })
@fn fingerprinter::Configuration::with_removed_silence
@spec
    ensures r == (Configuration { remove_silence: true, silence_threshold, ..self })
@fn fingerprinter::Configuration::with_classifiers
@spec
    ensures r == (Configuration { classifiers, max_filter_width: r.max_filter_width, ..self }), conf_inv(&r)
@loop 1
    invariant k1 <= n1, n1 == classifiers@.len(),
        k1 == 0 ==> acc_t1 is None,
        k1 > 0 ==> acc_t1 is Some && acc_t1->0 as int == max_width(classifiers@.take(k1 as int)),
    decreases n1 - k1
@at body 1
    proof { assert(classifiers@.take(k1 as int).drop_last() =~= classifiers@.take(j1 as int)); assert(classifiers@.take(k1 as int).last() == classifiers@[j1 as int]); assert(j1 == 0 ==> max_width(classifiers@.take(0)) == 0); }
@at after 1
    proof { assert(classifiers@.take(classifiers@.len() as int) =~= classifiers@); assert(classifiers@.len() == 0 ==> max_width(classifiers@) == 0); }
@fn fingerprinter::Configuration::sample_rate
@spec
    ensures r == DEFAULT_SAMPLE_RATE
@fn fingerprinter::Configuration::id
@spec
    ensures r == self.id
@fn fingerprinter::Configuration::samples_in_item
@spec
    requires self.frame_overlap <= self.frame_size
    ensures r == self.frame_size - self.frame_overlap
@fn fingerprinter::Configuration::item_duration_in_seconds
@spec
    requires self.frame_overlap <= self.frame_size
    ensures r@ == item_dur(self)
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprinter::Configuration::delay
@spec
    requires self.frame_overlap <= self.frame_size, conf_inv(self), self.classifiers@.len() >= 1, max_width(self.classifiers@) >= 1, self.filter_coefficients@.len() >= 1, self.filter_coefficients@.len() + max_width(self.classifiers@) <= usize::MAX, delay_of(self) <= usize::MAX
    ensures r as int == delay_of(self)
@at start
    proof { let (a, b) = ((self.filter_coefficients@.len() - 1) + (max_width(self.classifiers@) - 1), self.frame_size - self.frame_overlap); assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }
@fn fingerprinter::Configuration::preset_test1
@spec
    ensures preset_ok(&r, 0)
@fn fingerprinter::Configuration::preset_test2
@spec
    ensures preset_ok(&r, 1)
@fn fingerprinter::Configuration::preset_test3
@spec
    ensures preset_ok(&r, 2)
@fn fingerprinter::Configuration::preset_test4
@spec
    ensures preset_ok(&r, 3)
@fn fingerprinter::Configuration::preset_test5
@spec
    ensures preset_ok(&r, 4)
