// The rectangles of each filter pattern: (x, y, x2, y2) half open; `pos` chooses the positive region.
pub struct R4 { pub x1: int, pub y1: int, pub x2: int, pub y2: int }
pub open spec fn pos1(k: FilterKind, x: int, y: int, w: int, h: int) -> R4 {
    match k {
        FilterKind::Filter0 => R4 { x1: x, y1: y, x2: x + w, y2: y + h },
        FilterKind::Filter1 => R4 { x1: x, y1: y + h / 2, x2: x + w, y2: y + h },
        FilterKind::Filter2 => R4 { x1: x + w / 2, y1: y, x2: x + w, y2: y + h },
        FilterKind::Filter3 => R4 { x1: x, y1: y + h / 2, x2: x + w / 2, y2: y + h },
        FilterKind::Filter4 => R4 { x1: x, y1: y + h / 3, x2: x + w, y2: y + 2 * (h / 3) },
        FilterKind::Filter5 => R4 { x1: x + w / 3, y1: y, x2: x + 2 * (w / 3), y2: y + h },
    }
}
pub open spec fn empty4(x: int, y: int) -> R4 { R4 { x1: x, y1: y, x2: x, y2: y } }
pub open spec fn pos2(k: FilterKind, x: int, y: int, w: int, h: int) -> R4 {
    match k { FilterKind::Filter3 => R4 { x1: x + w / 2, y1: y, x2: x + w, y2: y + h / 2 }, _ => empty4(x, y) }
}
pub open spec fn neg1(k: FilterKind, x: int, y: int, w: int, h: int) -> R4 {
    match k {
        FilterKind::Filter0 => empty4(x, y),
        FilterKind::Filter1 => R4 { x1: x, y1: y, x2: x + w, y2: y + h / 2 },
        FilterKind::Filter2 => R4 { x1: x, y1: y, x2: x + w / 2, y2: y + h },
        FilterKind::Filter3 => R4 { x1: x, y1: y, x2: x + w / 2, y2: y + h / 2 },
        FilterKind::Filter4 => R4 { x1: x, y1: y, x2: x + w, y2: y + h / 3 },
        FilterKind::Filter5 => R4 { x1: x, y1: y, x2: x + w / 3, y2: y + h },
    }
}
pub open spec fn neg2(k: FilterKind, x: int, y: int, w: int, h: int) -> R4 {
    match k {
        FilterKind::Filter3 => R4 { x1: x + w / 2, y1: y + h / 2, x2: x + w, y2: y + h },
        FilterKind::Filter4 => R4 { x1: x, y1: y + 2 * (h / 3), x2: x + w, y2: y + h },
        FilterKind::Filter5 => R4 { x1: x + 2 * (w / 3), y1: y, x2: x + w, y2: y + h },
        _ => empty4(x, y),
    }
}
impl R4 {
    pub open spec fn has(&self, i: int, j: int) -> bool { self.x1 <= i < self.x2 && self.y1 <= j < self.y2 }
    pub open spec fn wf(&self) -> bool { self.x1 <= self.x2 && self.y1 <= self.y2 }
    pub open spec fn ok<I: Image>(&self, im: &I) -> bool { im.area_ok(self.x1, self.y1, self.x2, self.y2) }
    pub open spec fn val<I: Image>(&self, im: &I) -> real { im.area_val(self.x1, self.y1, self.x2, self.y2) }
}
// C13: the four rectangles are disjoint and cover exactly the filter rectangle; the second ones are only used by kinds 3..5
pub proof fn lemma_partition(k: FilterKind, x: int, y: int, w: int, h: int, i: int, j: int)
    requires w >= 1, h >= 1
    ensures
        pos1(k, x, y, w, h).wf(), pos2(k, x, y, w, h).wf(), neg1(k, x, y, w, h).wf(), neg2(k, x, y, w, h).wf(),
        (x <= i < x + w && y <= j < y + h) ==
            (pos1(k, x, y, w, h).has(i, j) || pos2(k, x, y, w, h).has(i, j) || neg1(k, x, y, w, h).has(i, j) || neg2(k, x, y, w, h).has(i, j)),
        !(pos1(k, x, y, w, h).has(i, j) && pos2(k, x, y, w, h).has(i, j)),
        !(neg1(k, x, y, w, h).has(i, j) && neg2(k, x, y, w, h).has(i, j)),
        !((pos1(k, x, y, w, h).has(i, j) || pos2(k, x, y, w, h).has(i, j)) && (neg1(k, x, y, w, h).has(i, j) || neg2(k, x, y, w, h).has(i, j))),
{}
pub open spec fn area_all_ok<I: Image>(im: &I, x: int, y: int, w: int, h: int) -> bool {
    forall|x1: int, y1: int, x2: int, y2: int| x <= x1 <= x2 <= x + w && y <= y1 <= y2 <= y + h ==> #[trigger] im.area_ok(x1, y1, x2, y2)
}
// sums over the regions; the second rectangle only where the pattern has one
pub open spec fn pos_sum<I: Image>(k: FilterKind, im: &I, x: int, y: int, w: int, h: int) -> real {
    match k { FilterKind::Filter3 => pos1(k, x, y, w, h).val(im) + pos2(k, x, y, w, h).val(im), _ => pos1(k, x, y, w, h).val(im) }
}
pub open spec fn neg_sum<I: Image>(k: FilterKind, im: &I, x: int, y: int, w: int, h: int) -> real {
    match k {
        FilterKind::Filter0 => 0real,
        FilterKind::Filter1 | FilterKind::Filter2 => neg1(k, x, y, w, h).val(im),
        _ => neg1(k, x, y, w, h).val(im) + neg2(k, x, y, w, h).val(im),
    }
}
pub open spec fn slog(a: real, b: real) -> real { r_ln(r_div(1real + a, 1real + b)) }
pub open spec fn filter_val<I: Image>(f: Filter, im: &I, x: int) -> real {
    slog(pos_sum(f.kind, im, x, f.y as int, f.width as int, f.height as int), neg_sum(f.kind, im, x, f.y as int, f.width as int, f.height as int))
}
pub open spec fn filter_ok<I: Image>(f: Filter, im: &I, x: int) -> bool {
    f.width >= 1 && f.height >= 1 && x >= 0 && x + 2 * f.width <= usize::MAX && f.y + 2 * f.height <= usize::MAX && area_all_ok(im, x, f.y as int, f.width as int, f.height as int)
}
