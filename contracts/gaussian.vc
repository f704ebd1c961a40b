@impl gaussian::ReflectIterator
    pub open spec fn wf(&self) -> bool { self.pos < self.size }
    // abstract time modulo 2*size
    pub open spec fn abs(&self) -> int { if self.forward { self.pos as int } else { 2 * self.size - 1 - self.pos } }
@fn gaussian::ReflectIterator::new
@spec
    requires size > 0
    ensures r.wf(), r.size == size, r.abs() == 0
@fn gaussian::ReflectIterator::move_forward
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).size == old(self).size,
        final(self).abs() == if old(self).abs() + 1 == 2 * old(self).size { 0 } else { old(self).abs() + 1 }
@fn gaussian::ReflectIterator::move_back
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).size == old(self).size,
        final(self).abs() == if old(self).abs() == 0 { 2 * old(self).size - 1 } else { old(self).abs() - 1 }
@fn gaussian::SliceWriter::new
@spec
    ensures r.slice@ == old(slice)@, r.index == 0, final(r.slice)@ == final(slice)@
@fn gaussian::SliceWriter::push
@spec
    requires old(self).index < old(self).slice.len()
    ensures final(self).slice@ == old(self).slice@.update(old(self).index as int, value), final(self).index == old(self).index + 1,
         final(final(self).slice)@ == final(old(self).slice)@
@fn gaussian::box_filter
@spec
    requires old(output).len() == input.len()
    ensures final(output).len() == input.len(),
        w == 0 ==> final(output)@ == old(output)@,
        w > 0 ==> rvs(final(output)@) == box_spec(rvs(input@), w as int)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost v = rvs(input@);
    let ghost n = input.len() as int;
    proof { if n == 0 { assert(rvs(output@) =~= box_spec(v, w as int)); } }
@at before 1
    proof { lemma_small_mod(0, (2 * n) as nat); }
@loop 1
    invariant k1 <= n1, n1 == wl, it1.wf(), it2.wf(), it1.size == n, it2.size == n, n > 0,
        it1.abs() == (0 - k1) % (2 * n), it2.abs() == (0 - k1) % (2 * n),
    decreases n1 - k1
@at body 1
    proof { lemma_mod_step(0 - j1, 2 * n); }
@loop 2
    invariant k2 <= n2, n2 == w, it1.wf(), it2.wf(), it1.size == n, it2.size == n, n > 0, wl == w / 2, v == rvs(input@), n == input.len(),
        it1.abs() == (0 - wl) % (2 * n), it2.abs() == (k2 - wl) % (2 * n),
        sum@ == wsum(v, 0 - wl, k2 as nat),
    decreases n2 - k2
@at body 2
    broadcast use {real_ax, seq_ax};
    proof { lemma_mod_step(j2 - wl, 2 * n); reveal_with_fuel(wsum, 2); }
@loop 3
    invariant k3 <= n3, n3 == wl, out.index == k3,
        it1.wf(), it2.wf(), it1.size == n, it2.size == n, n > 0, wl == w / 2, w > 0, v == rvs(input@), n == input.len(), n > w,
        it1.abs() == (out.index - wl) % (2 * n), it2.abs() == (out.index - wl + w) % (2 * n),
        sum@ == wsum(v, out.index - wl, w as nat),
        out.slice.len() == n, forall|i: int| 0 <= i < out.index ==> #[trigger] out.slice@[i]@ == box_at(v, w as int, i),
        final(out.slice)@ == fo,
    decreases n3 - k3
@at body 3
    broadcast use {real_ax, seq_ax};
    proof { lemma_wsum_step(v, out.index - wl, w as nat); lemma_mod_step(out.index - wl, 2 * n); lemma_mod_step(out.index - wl + w, 2 * n); }
@after "SliceWriter::new(output)"
    let ghost fo = final(out.slice)@;
@at before 4
    proof { lemma_refl_small(0, n); lemma_refl_small(w as int, n); }
@loop 4
    invariant k4 <= n4, n4 == n - w - 1, out.index == wl + k4,
        it1.wf(), it2.wf(), it1.size == n, it2.size == n, n > 0, wl == w / 2, w > 0, v == rvs(input@), n == input.len(), n > w,
        it1.abs() == k4, it2.abs() == k4 + w,
        sum@ == wsum(v, out.index - wl, w as nat),
        out.slice.len() == n, forall|i: int| 0 <= i < out.index ==> #[trigger] out.slice@[i]@ == box_at(v, w as int, i),
        final(out.slice)@ == fo,
    decreases n4 - k4
@at body 4
    broadcast use {real_ax, seq_ax};
    proof { lemma_wsum_step(v, out.index - wl, w as nat); lemma_refl_small(out.index - wl, n); lemma_refl_small(out.index - wl + w, n); }
@at before 5
    proof { lemma_refl_small(out.index - wl, n); lemma_refl_small(out.index - wl + w, n); }
@loop 5
    invariant k5 <= n5, n5 == wr + 1, wr == w - wl, out.index == wl + (n - w - 1) + k5,
        it1.wf(), it2.wf(), it1.size == n, it2.size == n, n > 0, wl == w / 2, w > 0, v == rvs(input@), n == input.len(), n > w,
        it1.abs() == (out.index - wl) % (2 * n), it2.abs() == (out.index - wl + w) % (2 * n),
        sum@ == wsum(v, out.index - wl, w as nat),
        out.slice.len() == n, forall|i: int| 0 <= i < out.index ==> #[trigger] out.slice@[i]@ == box_at(v, w as int, i),
        final(out.slice)@ == fo,
    decreases n5 - k5
@at body 5
    broadcast use {real_ax, seq_ax};
    proof { lemma_wsum_step(v, out.index - wl, w as nat); lemma_mod_step(out.index - wl, 2 * n); lemma_mod_step(out.index - wl + w, 2 * n); }
@loop 6
    invariant k6 <= n6, n6 == n, out.index == k6,
        it1.wf(), it2.wf(), it1.size == n, it2.size == n, n > 0, wl == w / 2, w > 0, v == rvs(input@), n == input.len(),
        it1.abs() == (out.index - wl) % (2 * n), it2.abs() == (out.index - wl + w) % (2 * n),
        sum@ == wsum(v, out.index - wl, w as nat),
        out.slice.len() == n, forall|i: int| 0 <= i < out.index ==> #[trigger] out.slice@[i]@ == box_at(v, w as int, i),
        final(out.slice)@ == fo,
    decreases n6 - k6
@at body 6
    broadcast use {real_ax, seq_ax};
    proof { lemma_wsum_step(v, out.index - wl, w as nat); lemma_mod_step(out.index - wl, 2 * n); lemma_mod_step(out.index - wl + w, 2 * n); }
@at end
    assert(out.index == n);
    proof { assert(forall|s: Seq<Real>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i]@ == box_at(v, w as int, i)) ==> rvs(s) =~= box_spec(v, w as int)); }
@fn gaussian::gaussian_filter
@spec
    requires n > 0, n <= 1000, sigma@ >= 0real, old(input).len() == old(output).len(),
        0 <= gw(sigma@, n as int) < 1000000000, gm(sigma@, n as int) < 1000000000, gw(sigma@, n as int) >= 1,
    ensures final(output).len() == old(output).len(), final(input).len() == old(input).len(),
        rvs(final(output)@) == gauss_spec(rvs(old(input)@), sigma@, n as int)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost v = rvs(input@);
    let ghost len = input.len() as int;
@after "let mut data2"
    let ghost fin = final(*data1)@;
    let ghost fout = final(*data2)@;
    let ghost vin = *final(data1);
    let ghost vout = *final(data2);
    proof { assert(wl as int == gwl(sigma@, n as int)); assert(m as int == gm(sigma@, n as int)); }
@loop 1
    invariant k1 <= n1, n1 == m, data1.len() == len, data2.len() == len, wl == gwl(sigma@, n as int),
        wl > 0,
        rvs(data1@) == boxes(v, wl as int, k1 as nat), 
        !vc_sw ==> final(*data1)@ == fin && final(*data2)@ == fout && *final(data1) == vin && *final(data2) == vout,
        vc_sw ==> final(*data1)@ == fout && final(*data2)@ == fin && *final(data1) == vout && *final(data2) == vin,
    decreases n1 - k1
@loop 2
    invariant n2 == n, data1.len() == len, data2.len() == len, wl == gwl(sigma@, n as int), wu == wl + 2, m <= k2, k2 <= n2 || k2 == m,
        rvs(data1@) == boxes(boxes(v, wl as int, m as nat), wu as int, (k2 - m) as nat),
        !vc_sw ==> final(*data1)@ == fin && final(*data2)@ == fout && *final(data1) == vin && *final(data2) == vout,
        vc_sw ==> final(*data1)@ == fout && final(*data2)@ == fin && *final(data1) == vout && *final(data2) == vin,
    decreases n2 - k2
