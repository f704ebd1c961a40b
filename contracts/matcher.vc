@fn fingerprint_matcher::Segment::try_merge
@spec
    requires self.offset1 + self.items_count <= usize::MAX, self.offset2 + self.items_count <= usize::MAX, self.items_count + other.items_count <= usize::MAX
    ensures
        r is Some <==> consecutive(*self, *other), //[C03 C05]
        r matches Some(s) ==> joined_span(*self, *other, s), //[C03]
        r matches Some(s) ==> joined_score(*self, *other, s), //[C05]
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprint_matcher::Segment::start1
@spec
    requires config.frame_overlap <= config.frame_size
    ensures r@ == r_mul(item_dur(config), self.offset1 as int as real)
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprint_matcher::Segment::start2
@spec
    requires config.frame_overlap <= config.frame_size
    ensures r@ == r_mul(item_dur(config), self.offset2 as int as real)
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprint_matcher::Segment::duration
@spec
    requires config.frame_overlap <= config.frame_size
    ensures r@ == r_mul(item_dur(config), self.items_count as int as real)
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprint_matcher::Segment::end1
@spec
    requires config.frame_overlap <= config.frame_size
    ensures r@ == r_mul(item_dur(config), self.offset1 as int as real) + r_mul(item_dur(config), self.items_count as int as real)
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprint_matcher::Segment::end2
@spec
    requires config.frame_overlap <= config.frame_size
    ensures r@ == r_mul(item_dur(config), self.offset2 as int as real) + r_mul(item_dur(config), self.items_count as int as real)
@at start
    broadcast use {real_ax, seq_ax};
@fn fingerprint_matcher::match_fingerprints
@attrs
#[verifier::spinoff_prover]
@spec
    requires fp1@.len() < usize::MAX, fp2@.len() < usize::MAX
    ensures
        fp1@.len() >= 0x80000 - 2 ==> r matches Err(MatchError::FingerprintTooLong { index: 0 }), //[C04]
        fp1@.len() < 0x80000 - 2 && fp2@.len() >= 0x80000 - 2 ==> r matches Err(MatchError::FingerprintTooLong { index: 1 }), //[C04]
        fp1@.len() < 0x80000 - 2 && fp2@.len() < 0x80000 - 2 ==> r is Ok, //[C04]
        r matches Ok(v) ==> v@.len() > 0 ==> exists|d: int| segs_in(fp1@, fp2@, d, v@), //[C03]
        r matches Ok(v) ==> segs_score(fp1@, fp2@, v@), //[C05]
        r matches Ok(v) ==> (aligned(fp1@, fp2@) ==> exists|d: int| #[trigger] best(fp1@, fp2@, d) && segs_in(fp1@, fp2@, d, v@)), //[C06]
        r matches Ok(v) ==> (!aligned(fp1@, fp2@) ==> v@.len() == 0), //[C06]
        r matches Ok(v) ==> (fp1@ == fp2@ && fp1@.len() >= 2 ==> v@.len() == 1 && v@[0].offset1 == 0 && v@[0].offset2 == 0 && v@[0].items_count == fp1@.len() && v@[0].score@ == 0real), //[C06]
@at start
    broadcast use {real_ax, seq_ax};
    let ghost (f1, f2) = (fp1@, fp2@);
    let ghost (l1, l2) = (fp1@.len() as int, fp2@.len() as int);
@loop 1
    invariant k1 <= n1, f1 == fp1@, f2 == fp2@,
        n1 == fp1.len(), //[C06]
        short(f1), //[C04]
        offsets@ =~= ents(f1, f2).take(k1 as int), //[C06]
    decreases n1 - k1
@at body 1
    proof { assert(ents(f1, f2).take(j1 + 1) =~= ents(f1, f2).take(j1 as int).push(e1(f1[j1 as int], j1 as int))); } //[C06]
@loop 2
    invariant k2 <= n2, f1 == fp1@, f2 == fp2@,
        n2 == fp2.len(), //[C06]
        short(f1), short(f2), //[C04]
        offsets@ =~= ents(f1, f2).take(f1.len() + k2), //[C06]
    decreases n2 - k2
@at body 2
    proof { assert(ents(f1, f2).take(f1.len() + j2 + 1) =~= ents(f1, f2).take(f1.len() + j2).push(e2(f2[j2 as int], j2 as int))); } //[C06]
@at after 2
    proof { assert(offsets@ =~= ents(f1, f2)); //[C06]
    }
@before "let mut histogram"
    let ghost so = offsets@;
    proof {
        assert(sorted_ents(f1, f2, so)); //[C06]
        lemma_sorted_ents(f1, f2, so); } //[C06]
@loop 3
    invariant
        k3 <= n3, n3 == offsets.len(), //[C06]
        f1 == fp1@, f2 == fp2@, l1 == f1.len(), l2 == f2.len(), short(f1), short(f2),
        so == offsets@, sorted_ents(f1, f2, so), //[C06]
        histogram@.len() == l1 + l2, //[C03 C06]
        forall|k: int| 0 <= k < so.len() ==> ent_ok(f1, f2, #[trigger] so[k]), //[C06]
        forall|d: int| 0 <= d < l1 + l2 ==> (#[trigger] histogram@[d]) as int == tot(f1, f2, so.take(k3 as int), d), //[C06]
    decreases n3 - k3
@at body 3
    let ghost h0 = histogram@;
    let ghost x1 = so[j3 as int];
    proof { lemma_tot_step(f1, f2, so, j3 as int); lemma_masks(x1); assert(ent_ok(f1, f2, x1)); assert forall|d: int| 0 <= d < l1 + l2 implies 0 <= #[trigger] h0[d] <= j3 by { lemma_tot_range(f1, f2, so.take(j3 as int), d); } //[C06]
        assert forall|d: int| 0 <= d < l1 + l2 implies (#[trigger] h0[d]) as int + gain(f1, f2, x1, d) == tot(f1, f2, so.take(j3 + 1), d) by { assert(tot(f1, f2, so.take(j3 + 1), d) == tot(f1, f2, so.take(j3 as int), d) + gain(f1, f2, so[j3 as int], d)); } } //[C06]
@loop 4
    invariant_except_break
        forall|d: int| 0 <= d < l1 + l2 ==> (#[trigger] histogram@[d]) as int == h0[d] + cin(f2, so, x1, j3 + 1, k4 as int, d), //[C06]
    invariant
        j3 + 1 <= k4 <= n4, //[C06]
        n4 == offsets.len(), //[C06]
        f1 == fp1@, f2 == fp2@, short(f1), short(f2), so == offsets@, so.len() == l1 + l2, histogram@.len() == l1 + l2, l1 == f1.len(), l2 == f2.len(),
        forall|k: int| 0 <= k < so.len() ==> ent_ok(f1, f2, #[trigger] so[k]),
        x1 == so[j3 as int], j3 < so.len(), h0.len() == l1 + l2,
        !src(x1), //[C06]
        hash1 == x1 & 0xfff00000u32, //[C06]
        offset1 as int == off(x1), off(x1) < l1, //[C06]
        forall|d: int| 0 <= d < l1 + l2 ==> 0 <= #[trigger] h0[d] <= j3,
    ensures
        k4 < n4 ==> hash(so[k4 - 1]) != hash(x1) && k4 - 1 > j3, //[C06]
        forall|d: int| 0 <= d < l1 + l2 ==> (#[trigger] histogram@[d]) as int == h0[d] + cin(f2, so, x1, j3 + 1, k4 as int, d), //[C06]
    decreases n4 - k4
@at body 4
    let ghost y1 = so[j4 as int];
    proof { lemma_masks(x1); lemma_masks(y1); assert(ent_ok(f1, f2, y1)); //[C06]
        assert forall|d: int| 0 <= d < l1 + l2 implies (#[trigger] histogram@[d]) as int == h0[d] + cin(f2, so, x1, j3 + 1, j4 as int, d) && cin(f2, so, x1, j3 + 1, j4 as int, d) <= j4 && cin(f2, so, x1, j3 + 1, j4 + 1, d) == cin(f2, so, x1, j3 + 1, j4 as int, d) + (if pair(f2, x1, y1, d) { 1int } else { 0 }) by { lemma_cin_range(f2, so, x1, j3 + 1, j4 as int, d); } } //[C06]
@at after 4
    proof { assert forall|d: int| 0 <= d < l1 + l2 implies (#[trigger] histogram@[d]) as int == tot(f1, f2, so.take(k3 as int), d) by { lemma_scan(f1, f2, so, j3 as int, k4 as int, d); assert(h0[d] as int + gain(f1, f2, x1, d) == tot(f1, f2, so.take(j3 + 1), d)); } } //[C06]
@at after 3
    proof { lemma_tot_all(f1, f2, so); assert forall|d: int| 0 <= d < l1 + l2 implies #[trigger] histogram@[d] == count(f1, f2, d) by { assert(tot(f1, f2, so.take(so.len() as int), d) == count(f1, f2, d)); } } //[C06]
@loop 5
    invariant
        k5 <= n5, n5 == histogram@.len(), //[C06]
        histogram_size == histogram@.len(),
        peaks_of(histogram@, k5 as int, best_alignments@), //[C06]
    decreases n5 - k5
@at body 5
    let ghost b0 = best_alignments@;
@at tail 5
    proof { let b1 = best_alignments@; assert forall|i: int| 0 <= i < k5 && #[trigger] peak(histogram@, i) implies b1.contains((histogram@[i], i as usize)) //[C06]
        by { if i == j5 {
            assert(b1[b1.len() - 1] == (histogram@[i], i as usize)); //[C06]
        } else { assert(b0.contains((histogram@[i], i as usize))); let p = choose|p: int| 0 <= p < b0.len() && b0[p] == (histogram@[i], i as usize);
            assert(b1[p] == b0[p]); //[C06]
        } } }
@at after 5
    let ghost al = best_alignments@;
@before "let mut segments"
    let ghost sb = best_alignments@;
    proof {
        assert(sorted_down(sb)); //[C06]
        assert(sb.to_multiset() == al.to_multiset()); //[C06]
        lemma_choice(f1, f2, histogram@, al, sb); if f1 == f2 && l1 >= 2 { lemma_self(f1); assert(count(f1, f2, l1) >= 2); } } //[C06]
@before "let offset_diff = offset as isize"
    let ghost d = offset as int;
    proof {
        assert(best(f1, f2, d)); //[C06]
        lemma_cnt_pos(f1, f2, d, l1); let w = choose|w: int| 0 <= w < l1 && #[trigger] hit(f1, f2, w, d) == 1; assert(0 <= w < l1 && 0 <= w + l2 - d < l2); lemma_gw83(); }
@after "let size ="
    let ghost same = f1 == f2 && l1 >= 2;
    proof {
        assert(size >= 1); //[C03]
        assert(offset1 + size <= l1 && offset2 + size <= l2 && offset1 + l2 - offset2 == d); //[C03]
        if same { assert(d == l1);
            assert(offset1 == 0 && offset2 == 0 && size == l1); //[C06]
        } }
@loop 6
    invariant k6 <= n6, f1 == fp1@, f2 == fp2@, fp1.len() < 0x80000, fp2.len() < 0x80000, offset1 + size <= f1.len(), offset2 + size <= f2.len(),
        n6 == size, //[C03]
        bit_counts@.len() == k6, //[C03]
        forall|i: int| 0 <= i < k6 ==> #[trigger] rvs(bit_counts@)[i] == popcount(f1[offset1 + i] ^ f2[offset2 + i]) as real, //[C05]
    decreases n6 - k6
@at body 6
    broadcast use {real_ax, seq_ax};
@after "let orig_bit_counts"
    proof {
        assert forall|i: int| 0 <= i < size implies (#[trigger] orig_bit_counts@[i])@ == popcount(f1[offset1 + i] ^ f2[offset2 + i]) as real by { assert(cloned(bit_counts@[i], orig_bit_counts@[i])); assert(rvs(bit_counts@)[i] == bit_counts@[i]@); } //[C05]
        if same { assert forall|i: int| 0 <= i < size implies #[trigger] rvs(bit_counts@)[i] == 0real by { lemma_same_bits(f1[i]); assert(rvs(bit_counts@)[i] == popcount(f1[offset1 + i] ^ f2[offset2 + i]) as real); } } //[C06]
    }
    let ghost bc = rvs(bit_counts@);
@before "let mut grad"
    proof { if same { lemma_gauss_zero(bc, 8real, 3); //[C06]
        assert(zeros(rvs(smoothed_bit_counts@))); //[C06]
    } }
@loop 7
    invariant k7 <= n7, n7 == smoothed_bit_counts@.len(),
        acc_t1@ =~= smoothed_bit_counts@.take(k7 as int), //[C06]
    decreases n7 - k7
@at before 8
    proof { if same { lemma_grad_zero(rvs(smoothed_bit_counts@)); //[C06]
        assert forall|i: int| 0 <= i < grad@.len() implies (#[trigger] grad@[i])@ == 0real by { assert(rvs(grad@)[i] == 0real); } //[C06]
        }
        assert(rvs(grad@).len() == size); //[C03]
    }
@loop 8
    invariant k8 <= n8, n8 == size, grad@.len() == size,
        same ==> forall|i: int| 0 <= i < size ==> (#[trigger] grad@[i])@ == 0real, //[C06]
    decreases n8 - k8
@at body 8
    broadcast use {real_ax, seq_ax};
@loop 9
    invariant k9 <= n9, grad@.len() == size,
        n9 == size, //[C03]
        same ==> forall|i: int| 0 <= i < size ==> (#[trigger] grad@[i])@ == 0real,
        same ==> gradient_peaks@.len() == 0, //[C06]
        incr(gradient_peaks@, k9 as int), //[C03]
        incr(gradient_peaks@, size - 1), //[C03]
    decreases n9 - k9
@at body 9
    broadcast use {real_ax, seq_ax};
@loop 10
    invariant
        k10 <= n10, n10 == gradient_peaks@.len(), //[C06]
        f1 == fp1@, f2 == fp2@, l1 == f1.len(), l2 == f2.len(), offset1 + size <= l1, offset2 + size <= l2, offset1 + l2 - offset2 == d, size >= 1, l1 < 0x80000, l2 < 0x80000,
        match_threshold@ == 10real, //[C05]
        same ==> f1 == f2 && l1 >= 2 && offset1 == 0 && offset2 == 0 && size == l1,
        same ==> gradient_peaks@.len() == 1, //[C06]
        gradient_peaks@.len() >= 1 && gradient_peaks@.last() == size, //[C03]
        incr(gradient_peaks@, size + 1), //[C03]
        begin == if k10 == 0 { 0 } else { gradient_peaks@[k10 - 1] }, //[C03]
        orig_bit_counts@.len() == size, //[C03]
        forall|i: int| 0 <= i < size ==> (#[trigger] orig_bit_counts@[i])@ == popcount(f1[offset1 + i] ^ f2[offset2 + i]) as real, //[C05]
        segs_in(f1, f2, d, segments@), //[C03]
        segs_score(f1, f2, segments@), //[C05]
        segments@.len() > 0 ==> segments@.last().offset1 + segments@.last().items_count <= offset1 + begin && segments@.last().offset2 + segments@.last().items_count <= offset2 + begin, //[C03]
        same && k10 == 0 ==> segments@.len() == 0, //[C06]
        same && k10 == 1 ==> segments@.len() == 1 && segments@[0].offset1 == 0 && segments@[0].offset2 == 0 && segments@[0].items_count == l1 && segments@[0].score@ == 0real, //[C06]
    decreases n10 - k10
@at body 10
    broadcast use {real_ax, seq_ax};
    let ghost sg = segments@;
@loop 11
    invariant k11 <= n11, begin <= end <= size, orig_bit_counts@.len() == size,
        n11 == end - begin, s_t2@ == orig_bit_counts@.subrange(begin as int, end as int), //[C05]
        forall|i: int| 0 <= i < size ==> (#[trigger] orig_bit_counts@[i])@ == popcount(f1[offset1 + i] ^ f2[offset2 + i]) as real,
        acc_t3@ == diffs(f1, f2, offset1 + begin, offset2 + begin, k11 as int) as real, //[C05]
    decreases n11 - k11
@at body 11
    broadcast use {real_ax, seq_ax};
    proof { assert(s_t2@[j11 as int] == orig_bit_counts@[begin + j11]); } //[C05]
@after "let score : Real"
    let ghost ns = Segment { offset1: (offset1 + begin) as usize, offset2: (offset2 + begin) as usize, items_count: duration, score };
    proof {
        assert(seg_in(f1, f2, d, ns)); //[C03]
        assert(score@ == r_div(diffs(f1, f2, offset1 + begin, offset2 + begin, duration as int) as real, duration as int as real)); //[C05]
        lemma_mean(f1, f2, offset1 + begin, offset2 + begin, duration as int, score@); if same { lemma_diffs_self(f1, 0, l1); lemma_zero_mean(l1, score@); } } //[C05]
@at tail 10
    proof {
        if score@ < 10real {
            assert(segments@ =~= sg.push(ns) || (sg.len() > 0 && segments@ =~= sg.update(sg.len() - 1, segments@.last()))); //[C03]
            assert(extended(sg, ns, segments@)); //[C03]
            assert(rescored(sg, ns, segments@)); //[C05]
            lemma_extended(f1, f2, d, sg, ns, segments@); //[C03]
            lemma_rescored(f1, f2, d, sg, ns, segments@); //[C05]
        } else {
            assert(segments@ == sg); //[C05]
        }
    }
