pub(crate) fn kind(k: u8) -> super::FilterKind {
    match k { 0 => super::FilterKind::Filter0, 1 => super::FilterKind::Filter1, 2 => super::FilterKind::Filter2, 3 => super::FilterKind::Filter3, 4 => super::FilterKind::Filter4, _ => super::FilterKind::Filter5 }
}
pub(crate) fn raw(k: u8, im: &impl super::Image, x: usize, y: usize, w: usize, h: usize, cmp: fn(f64, f64) -> f64) -> f64 {
    match k {
        0 => super::filter0(im, x, y, w, h, cmp), 1 => super::filter1(im, x, y, w, h, cmp), 2 => super::filter2(im, x, y, w, h, cmp),
        3 => super::filter3(im, x, y, w, h, cmp), 4 => super::filter4(im, x, y, w, h, cmp), _ => super::filter5(im, x, y, w, h, cmp),
    }
}
pub(crate) fn cmp_log(a: f64, b: f64) -> f64 { super::subtract_log(a, b) }
pub(crate) fn parts(f: &super::Filter) -> (u8, usize, usize, usize) { (match f.kind { super::FilterKind::Filter0 => 0, super::FilterKind::Filter1 => 1, super::FilterKind::Filter2 => 2, super::FilterKind::Filter3 => 3, super::FilterKind::Filter4 => 4, super::FilterKind::Filter5 => 5 }, f.y, f.height, f.width) }
