@fn utils::f32.DurationExt::display_duration
@spec
    ensures self@ >= 0real && self@ < 10000000real ==> r.0 as int == r_round(r_mul(self@, 100real))
@at start
    broadcast use {real_ax, seq_ax};
    proof { reveal(r_mul); }
@fn utils::DurationDisplay.Display::fmt
@spec
    ensures r is Ok, final(f)@ == old(f)@ + shown(self.0 as nat)
@at start
    broadcast use {real_ax, seq_ax};
    let ghost f0 = f@;
    proof { lemma_split(self.0 as nat); lemma_dec_len((self.0 / 360000) as nat); }
@at end
    proof { assert(f@ =~= f0 + shown(self.0 as nat)); }
