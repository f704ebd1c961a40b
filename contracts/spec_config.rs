// ---- C19
// (moved here from spec_fp.rs: what Fingerprinter::new requires of a configuration)
pub open spec fn conf_ok(c: &Configuration) -> bool { cls_wf(c.classifiers@) && 1 <= c.filter_coefficients@.len() <= 8 && c.frame_overlap < c.frame_size && c.frame_size < 0x1_0000_0000 }
pub open spec fn ascending(q: Quantizer) -> bool { q.t0@ < q.t1@ && q.t1@ < q.t2@ }
// sixteen classifiers with ascending thresholds whose rectangles fit the twelve bands
pub open spec fn cls_preset(cs: Seq<Classifier>) -> bool { cs.len() == 16 && cls_wf(cs) && forall|k: int| 0 <= k < cs.len() ==> ascending((#[trigger] cs[k]).quantizer) }
// the stored width is that of the widest classifier; every public way to obtain a configuration establishes it
pub open spec fn conf_inv(c: &Configuration) -> bool { c.max_filter_width == max_width(c.classifiers@) }
pub open spec fn preset_ok(c: &Configuration, id: int) -> bool { conf_ok(c) && conf_inv(c) && cls_preset(c.classifiers@) && c.id == id }
pub open spec fn item_dur(c: &Configuration) -> real { r_div((c.frame_size - c.frame_overlap) as real, 11025real) }
pub open spec fn delay_of(c: &Configuration) -> int { ((c.filter_coefficients@.len() - 1) + (max_width(c.classifiers@) - 1)) * (c.frame_size - c.frame_overlap) + c.frame_overlap }
#[verifier::external_body] pub fn vc_array_to_vec<T, const N: usize>(x: [T; N]) -> (r: Vec<T>) ensures r@ == x@ { x.into() }
pub open spec fn cls_one(c: Classifier) -> bool { c.filter.width >= 1 && c.filter.width <= 255 && c.filter.height >= 1 && c.filter.y + c.filter.height <= 12 && ascending(c.quantizer) }
pub proof fn lemma_preset(cs: Seq<Classifier>) requires cs.len() == 16, cls_one(cs[0]), cls_one(cs[1]), cls_one(cs[2]), cls_one(cs[3]), cls_one(cs[4]), cls_one(cs[5]), cls_one(cs[6]), cls_one(cs[7]), cls_one(cs[8]), cls_one(cs[9]), cls_one(cs[10]), cls_one(cs[11]), cls_one(cs[12]), cls_one(cs[13]), cls_one(cs[14]), cls_one(cs[15]) ensures cls_preset(cs) { assert forall|k: int| 0 <= k < 16 implies cls_one(#[trigger] cs[k]) by { assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8 || k == 9 || k == 10 || k == 11 || k == 12 || k == 13 || k == 14 || k == 15); } }
