pub(crate) fn norm(v: &mut [f64], eps: f64) { super::normalize(v, eps) }
