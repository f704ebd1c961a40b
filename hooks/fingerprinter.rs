pub(crate) fn interpolate(c: &super::Configuration) -> bool { c.interpolate }
pub(crate) fn classifiers(c: &super::Configuration) -> &[crate::classifier::Classifier] { &c.classifiers }
pub(crate) fn coefficients(c: &super::Configuration) -> &[f64] { &c.filter_coefficients }
pub(crate) fn frame_size(c: &super::Configuration) -> usize { c.frame_size }
pub(crate) fn frame_overlap(c: &super::Configuration) -> usize { c.frame_overlap }
pub(crate) fn empty() -> super::Configuration { super::Configuration::new() }
