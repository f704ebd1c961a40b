@fn filter::subtract_log
@spec
    ensures r@ == slog(a@, b@)
@at start
    broadcast use real_ax;
@fn filter::filter0
@spec
    requires w >= 1, h >= 1, x + 2 * w <= usize::MAX, y + 2 * h <= usize::MAX, area_all_ok(image, x as int, y as int, w as int, h as int),
        forall|a: Real, b: Real| cmp.requires((a, b)),
    ensures exists|a: Real, b: Real| #[trigger] cmp.ensures((a, b), r) && a@ == pos_sum(FilterKind::Filter0, image, x as int, y as int, w as int, h as int) && b@ == neg_sum(FilterKind::Filter0, image, x as int, y as int, w as int, h as int)
@at start
    broadcast use real_ax;
@fn filter::filter1
@spec
    requires w >= 1, h >= 1, x + 2 * w <= usize::MAX, y + 2 * h <= usize::MAX, area_all_ok(image, x as int, y as int, w as int, h as int),
        forall|a: Real, b: Real| cmp.requires((a, b)),
    ensures exists|a: Real, b: Real| #[trigger] cmp.ensures((a, b), r) && a@ == pos_sum(FilterKind::Filter1, image, x as int, y as int, w as int, h as int) && b@ == neg_sum(FilterKind::Filter1, image, x as int, y as int, w as int, h as int)
@at start
    broadcast use real_ax;
@fn filter::filter2
@spec
    requires w >= 1, h >= 1, x + 2 * w <= usize::MAX, y + 2 * h <= usize::MAX, area_all_ok(image, x as int, y as int, w as int, h as int),
        forall|a: Real, b: Real| cmp.requires((a, b)),
    ensures exists|a: Real, b: Real| #[trigger] cmp.ensures((a, b), r) && a@ == pos_sum(FilterKind::Filter2, image, x as int, y as int, w as int, h as int) && b@ == neg_sum(FilterKind::Filter2, image, x as int, y as int, w as int, h as int)
@at start
    broadcast use real_ax;
@fn filter::filter3
@spec
    requires w >= 1, h >= 1, x + 2 * w <= usize::MAX, y + 2 * h <= usize::MAX, area_all_ok(image, x as int, y as int, w as int, h as int),
        forall|a: Real, b: Real| cmp.requires((a, b)),
    ensures exists|a: Real, b: Real| #[trigger] cmp.ensures((a, b), r) && a@ == pos_sum(FilterKind::Filter3, image, x as int, y as int, w as int, h as int) && b@ == neg_sum(FilterKind::Filter3, image, x as int, y as int, w as int, h as int)
@at start
    broadcast use real_ax;
@fn filter::filter4
@spec
    requires w >= 1, h >= 1, x + 2 * w <= usize::MAX, y + 2 * h <= usize::MAX, area_all_ok(image, x as int, y as int, w as int, h as int),
        forall|a: Real, b: Real| cmp.requires((a, b)),
    ensures exists|a: Real, b: Real| #[trigger] cmp.ensures((a, b), r) && a@ == pos_sum(FilterKind::Filter4, image, x as int, y as int, w as int, h as int) && b@ == neg_sum(FilterKind::Filter4, image, x as int, y as int, w as int, h as int)
@at start
    broadcast use real_ax;
@fn filter::filter5
@spec
    requires w >= 1, h >= 1, x + 2 * w <= usize::MAX, y + 2 * h <= usize::MAX, area_all_ok(image, x as int, y as int, w as int, h as int),
        forall|a: Real, b: Real| cmp.requires((a, b)),
    ensures exists|a: Real, b: Real| #[trigger] cmp.ensures((a, b), r) && a@ == pos_sum(FilterKind::Filter5, image, x as int, y as int, w as int, h as int) && b@ == neg_sum(FilterKind::Filter5, image, x as int, y as int, w as int, h as int)
@at start
    broadcast use real_ax;
@fn filter::Filter::apply
@spec
    requires filter_ok(*self, image, x as int)
    ensures r@ == filter_val(*self, image, x as int)
@at start
    broadcast use real_ax;
@fn filter::Filter::width
@spec
    ensures r == self.width
@fn filter::Filter::new
@spec
    ensures r.kind == kind, r.y == y, r.height == height, r.width == width
