pub(crate) fn boxf(i: &[f64], o: &mut [f64], w: usize) { super::box_filter(i, o, w) }
