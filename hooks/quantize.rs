pub(crate) fn t(q: &super::Quantizer) -> (f64, f64, f64) { (q.t0, q.t1, q.t2) }
