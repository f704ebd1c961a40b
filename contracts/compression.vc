@item compression::IntoBitIterator
pub trait IntoBitIterator : Sized { fn into_bit_iter(self) -> Vec<bool>; }
@fn fingerprinter::Configuration::id
@spec
    ensures r == self.id
@fn compression::packed_intn_array_len
@spec
    requires array_len * n + 7 <= usize::MAX
    ensures r == (array_len * n + 7) / 8
@fn compression::u32.IntoBitIterator::into_bit_iter
@spec
    ensures r@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] r@[i] == tb32(self, i)
@loop 1
    invariant k1 <= n1, n1 == 32, acc_t1@.len() == k1, forall|i: int| 0 <= i < k1 ==> #[trigger] acc_t1@[i] == tb32(self, i),
    decreases n1 - k1
@fn compression::FingerprintCompressor::compress_subfingerprint
@spec
    ensures r@ == codes(item_gaps(subfingerprint))
@loop 1
    invariant k1 <= n1, n1 == 32, s_t1@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] s_t1@[i] == tb32(subfingerprint, i),
        scan_t3 as nat == lastpos(subfingerprint, k1 as nat),
        acc_t2@ =~= codes(gaps(subfingerprint, k1 as nat)),
    decreases n1 - k1
@at body 1
    proof { lemma_lastpos(subfingerprint, j1 as nat); lemma_gaps_ok(subfingerprint, k1 as nat); lemma_codes_push(gaps(subfingerprint, j1 as nat), k1 - lastpos(subfingerprint, j1 as nat)); }
@at tail 1
    proof { if is_bit_set { assert(acc_t2@ =~= codes(gaps(subfingerprint, j1 as nat)).push(code(k1 - lastpos(subfingerprint, j1 as nat)))); } }
@at end
    proof { lemma_codes_push(gaps(subfingerprint, 32), 0); }
@fn compression::iter_packed_intn_array
@spec
    requires 1 <= N <= 8, array@.len() * N + 7 <= usize::MAX
    ensures packed(array@, N as int, r@)
@at start
    let ghost len = array@.len() as int;
    let ghost nn = N as int;
    let ghost total = (len * nn + 7) / 8;
@at before 1
    proof { assert(mask == (0xFFu8 << ((8 - N) as u8)) >> ((8 - N) as u8)) by { lemma_shift_amount(0xFFu8, (8 - N) as usize); lemma_shift_amount(0xFFu8 << ((8 - N) as usize), (8 - N) as usize); } if len == 0 { assert(nn * 0 == 0); assert(len * nn == 0) by(nonlinear_arith) requires len == 0; } }
@loop 1
    invariant k1 <= n1, n1 == (len + 7) / 8, len == array@.len(), nn == N, 1 <= nn <= 8, total == (len * nn + 7) / 8, len * nn + 7 <= usize::MAX,
        mask == (0xFFu8 << ((8 - N) as u8)) >> ((8 - N) as u8),
        acc_t1@.len() == (if k1 == n1 { total } else { nn * k1 }),
        forall|q: int, t: int| 0 <= q < acc_t1@.len() && 0 <= t < 8 ==> (#[trigger] tb(acc_t1@[q], t) <==> vbit(array@, nn, 8 * q + t)),
    decreases n1 - k1
@at body 1
    let ghost base = acc_t1@;
    proof { assert(8 * j1 < len); }
@at before 3
    let ghost m = slice@.len() as int;
    proof { lemma_part_zero(slice@, nn, acc_t2.1@); assert(0 * nn == 0) by(nonlinear_arith); }
@loop 3
    invariant k3 <= n3, n3 == m, m == slice@.len(), 1 <= m <= 8, nn == N, 1 <= nn <= 8,
        mask == (0xFFu8 << ((8 - N) as u8)) >> ((8 - N) as u8),
        part(slice@, nn, k3 as int, acc_t2.1@), acc_t2.0 == (k3 * nn + 7) / 8,
    decreases n3 - k3
@at body 3
    let ghost old3 = acc_t2.1@;
    proof { assert(0 <= j3 * nn <= 7 * nn) by(nonlinear_arith) requires 0 <= j3 <= 7, nn >= 1; assert(j3 * N == j3 * nn); 
        let b = vmask(slice@[j3 as int], nn); let s = ((j3 * nn) % 8) as usize; lemma_shift_amount(b, s); lemma_shift_amount(b, ((8 - s) % 8) as usize);
    }
@at tail 3
    proof { assert(bits == vmask(slice@[j3 as int], nn)); assert(acc_t2.1@ =~= if left_byte == right_byte { old3.update(right_byte as int, old3[right_byte as int] | (bits << ((rightmost_bit_index % 8) as u8))) } else { old3.update(right_byte as int, old3[right_byte as int] | (bits << ((rightmost_bit_index % 8) as u8))).update(left_byte as int, old3[left_byte as int] | (bits >> (((8 - (rightmost_bit_index % 8)) % 8) as u8))) });
      lemma_part_step(slice@, nn, j3 as int, old3, acc_t2.1@); }
@at before 2
    proof { assert((m * nn + 7) / 8 <= nn) by(nonlinear_arith) requires m <= 8, 1 <= nn <= 8; }
@loop 2
    invariant k2 <= n2, m == slice@.len(), 1 <= m <= 8, nn == N, 1 <= nn <= 8, n2 <= result@.len(), result@.len() == nn, n2 == (m * nn + 7) / 8,
        acc_t1@ =~= base + result@.take(k2 as int),
    decreases n2 - k2
@at tail 1
    proof {
        assert(m == if 8 * j1 + 8 <= len { 8 } else { len - 8 * j1 });
        assert(nn * k1 == nn * j1 + nn) by(nonlinear_arith) requires k1 == j1 + 1;
        assert(8 * (nn * j1) == nn * (8 * j1)) by(nonlinear_arith);
        if k1 < n1 {
            assert(8 * nn == m * nn);
        } else {
            assert(len * nn == nn * (8 * j1) + m * nn) by(nonlinear_arith) requires len == 8 * j1 + m;
        }
        assert forall|q: int, t: int| 0 <= q < acc_t1@.len() && 0 <= t < 8 implies (#[trigger] tb(acc_t1@[q], t) <==> vbit(array@, nn, 8 * q + t)) by {
            if q < base.len() { assert(acc_t1@[q] == base[q]); }
            else {
                let p = q - base.len();
                assert(acc_t1@[q] == result@[p]);
                lemma_vbit_group(array@, slice@, nn, j1 as int, 8 * p + t);
                if 8 * p + t >= m * nn { assert((8 * p + t) / nn >= m) by(nonlinear_arith) requires 8 * p + t >= m * nn, nn >= 1; }
            }
        }
    }
@fn compression::FingerprintCompressor::compress
@spec
    requires fingerprint@.len() < 0x100_0000
    ensures compressed(self.0.id, fingerprint@, r@)
@at start
    let ghost fp = fingerprint@;
@loop 1
    invariant k1 <= n1, n1 == fp.len(), fp == fingerprint@,
        scan_t2 == (if k1 == 0 { 0u32 } else { fp[k1 - 1] }),
        acc_t1.0@ == norms(all_gaps(fp, k1 as nat)), acc_t1.1@ == excs(all_gaps(fp, k1 as nat)),
    decreases n1 - k1
@at before 2
    let ghost base = all_gaps(fp, j1 as nat);
    let ghost gs = item_gaps(xitem(fp, j1 as int));
    proof { if j1 == 0 { let f = fp[0]; assert(f ^ 0u32 == f) by(bit_vector); } assert(s_t5@ == codes(gs)); assert(base + gs.take(0) =~= base); lemma_gaps_ok(xitem(fp, j1 as int), 32); }
@loop 2
    invariant k2 <= n2, n2 == gs.len(), s_t5@ == codes(gs), gaps_ok(gs),
        acc_t1.0@ == norms(base + gs.take(k2 as int)), acc_t1.1@ == excs(base + gs.take(k2 as int)),
    decreases n2 - k2
@at body 2
    proof { lemma_take_codes(gs, base, j2 as int); }
@at after 2
    proof { assert(gs.take(gs.len() as int) =~= gs); }
@at after 1
    let ghost g = all_gaps(fp, fp.len());
    proof { lemma_all_gaps_ok(fp, fp.len()); lemma_excs_len(g); lemma_header(fp.len() as usize); }
@at before 3
    let ghost output0 = output;
@loop 3
    invariant k3 <= n3, n3 == 4, acc_t8@ =~= output@.take(k3 as int),
    decreases n3 - k3
@loop 4
    invariant k4 <= n4, n4 == s_t6@.len(), acc_t8@ =~= output@ + s_t6@.take(k4 as int),
    decreases n4 - k4
@loop 5
    invariant k5 <= n5, n5 == s_t7@.len(), acc_t8@ =~= output@ + s_t6@ + s_t7@.take(k5 as int),
    decreases n5 - k5
@at end
    proof {
        let p3 = s_t6@; let p5 = s_t7@;
        let h = seq![self.0.id, (fp.len() / 65536 % 256) as u8, (fp.len() / 256 % 256) as u8, (fp.len() % 256) as u8];
        assert(output0@ =~= h);
        assert(__ret@ =~= h + p3 + p5);
        assert(packed(norms(g), 3, p3) && packed(excs(g), 5, p5));
    }
