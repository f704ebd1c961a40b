@fn gradient::gradient
@spec
    requires iter.wf(), iter.pos == 0,
    ensures rvs(final(output)@) == rvs(old(output)@) + grad_spec(rvs(iter.v@)),
@at start
    broadcast use {real_ax, seq_ax};
    let ghost v0 = rvs(iter.v@);
    let ghost out0 = rvs(output@);
@loop 1
    invariant
        iter.wf(), rvs(iter.v@) == v0, 3 <= iter.pos <= v0.len(),
        f0@ == v0[iter.pos - 3], f1@ == v0[iter.pos - 2], f2@ == v0[iter.pos - 1],
        rvs(output@) =~= out0 + grad_spec(v0).take(iter.pos - 1),
    decreases v0.len() - iter.pos
@at body 1
    broadcast use {real_ax, seq_ax};
@at end
    assert(rvs(output@) =~= out0 + grad_spec(v0));
