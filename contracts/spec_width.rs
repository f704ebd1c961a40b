pub open spec fn max_width(cs: Seq<Classifier>) -> int decreases cs.len() { if cs.len() == 0 { 0 } else { let m = max_width(cs.drop_last()); if cs.last().filter.width > m { cs.last().filter.width as int } else { m } } }
pub proof fn lemma_max_width(cs: Seq<Classifier>, k: int) requires 0 <= k < cs.len() ensures cs[k].filter.width <= max_width(cs) decreases cs.len()
{ if k < cs.len() - 1 { lemma_max_width(cs.drop_last(), k); assert(cs.drop_last()[k] == cs[k]); } }
pub open spec fn cls_wf(cs: Seq<Classifier>) -> bool { cs.len() > 0 && forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).filter.width >= 1 && cs[k].filter.width <= 255 && cs[k].filter.height >= 1 && cs[k].filter.y + cs[k].filter.height <= 12 }
pub proof fn lemma_max_width_pos(cs: Seq<Classifier>) requires cls_wf(cs) ensures 1 <= max_width(cs) <= 255 decreases cs.len()
{
    assert(cs.last() == cs[cs.len() - 1]);
    if cs.len() > 1 {
        let d = cs.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).filter.width >= 1 && d[k].filter.width <= 255 && d[k].filter.height >= 1 && d[k].filter.y + d[k].filter.height <= 12 by { assert(d[k] == cs[k]); }
        lemma_max_width_pos(d);
    } else { assert(cs.drop_last().len() == 0); assert(max_width(cs.drop_last()) == 0); }
}
