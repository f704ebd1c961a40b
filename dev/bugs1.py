BUGS = [
dict(id="C12-origin-row", prop="C12",
 edits=[("chromaprint/src/rolling_image.rs", "        if r1 == 0 {\n            let row = self.row(r2 - 1);", "        if r1 % self.max_rows == 0 {\n            let row = self.row(r2 - 1);")],
 needs="a rectangle that starts at a non-zero multiple of the storage height",
 breaks="such a rectangle is not reduced by the sums above it",
 demo=("chromaprint/src/rolling_image.rs", '''
    #[test]
    fn t() {
        let mut im = RollingIntegralImage::new(4);
        for r in 0..8 { im.add_row(&[r as f64 + 1.0, 1.0]); }
        let a = crate::filter::Image::area(&im, 5, 0, 8, 1);
        assert!((a - 21.0).abs() < 1e-9, "{a}");
    }''')),
dict(id="C12-reset-shape", prop="C12",
 edits=[("chromaprint/src/rolling_image.rs", "        self.data.clear();\n        self.rows = 0;\n        self.columns = 0;", "        self.data.fill(0.0);\n        self.rows = 0;")],
 needs="an image used with rows of one width, reset, then used with rows of another width",
 breaks="the image keeps the old row width after a reset and panics, unlike a new image",
 demo=("chromaprint/src/rolling_image.rs", '''
    #[test]
    fn t() {
        let mut im = RollingIntegralImage::new(4);
        im.add_row(&[1.0, 2.0]);
        im.reset();
        im.add_row(&[1.0, 2.0, 3.0]);
        assert_eq!(crate::filter::Image::area(&im, 0, 0, 1, 3), 6.0);
    }''')),
dict(id="C15-tail-window", prop="C15",
 edits=[("chromaprint/src/gaussian.rs", "        for _ in 0..size - w - 1 {", "        for _ in 0..(size - w - 1).max(1) {")],
 needs="a sequence exactly one longer than the smoothing window",
 breaks="one output too many is produced (write past the end panics)",
 demo=("chromaprint/src/gaussian.rs", '''
    #[test]
    fn t() {
        let v: Vec<f64> = (0..5).map(|i| (i * i) as f64).collect();
        let mut o = vec![0.0; 5];
        box_filter(&v, &mut o, 4);
        assert!((o[4] - (v[2] + v[3] + v[4] + v[4]) / 4.0).abs() < 1e-9);
    }''')),
dict(id="C13-filter4-third", prop="C13",
 edits=[("chromaprint/src/filter.rs", "    let a = image.area(x, y + h_3, x + w, y + 2 * h_3);\n    let b = image.area(x, y, x + w, y + h_3) + image.area(x, y + 2 * h_3, x + w, y + h);",
         "    let a = image.area(x, y + h_3, x + w, y + h - h_3);\n    let b = image.area(x, y, x + w, y + h_3) + image.area(x, y + h - h_3, x + w, y + h);")],
 needs="a Filter4 classifier whose height is not a multiple of three",
 breaks="the middle third takes the remainder rows instead of the last third",
 demo=("chromaprint/src/filter.rs", '''
    struct Img;
    impl Image for Img { fn area(&self, x: usize, y: usize, w: usize, h: usize) -> f64 { let mut s = 0.0; for i in x..w { for j in y..h { s += (i * 100 + j * j) as f64; } } s } }
    #[test]
    fn t() {
        let f = Filter::new(FilterKind::Filter4, 1, 8, 3);
        let im = Img;
        let a = im.area(2, 3, 5, 5);
        let b = im.area(2, 1, 5, 3) + im.area(2, 5, 5, 9);
        let want = ((1.0 + a) / (1.0 + b)).ln();
        let got = f.apply(&im, 2);
        assert!((got - want).abs() < 1e-12, "{got} {want}");
    }''')),
dict(id="C14-last-classifier", prop="C14",
 edits=[("chromaprint/src/fingerprint_calculator.rs", "            bits = (bits << 2) | gray_code(classifier.classify(&self.image, offset));", "            bits = (bits << 2) ^ gray_code(classifier.classify(&self.image, offset.min(254)));")],
 needs="more than 255 feature rows, i.e. a stream of over 250 items (about half a minute of audio)",
 breaks="items from number 255 on are computed from the wrong image position",
 demo=("chromaprint/src/fingerprint_calculator.rs", '''
    #[test]
    fn t() {
        use crate::filter::{Filter, FilterKind};
        use crate::quantize::Quantizer;
        let mk = || FingerprintCalculator::new(vec![Classifier::new(Filter::new(FilterKind::Filter0, 0, 1, 1), Quantizer::new(0.5, 1.0, 2.0))]);
        let mut c = mk();
        for i in 0..300usize { c.consume(&[(i % 5) as f64 * 2.0, 0.0]); }
        for i in 0..300usize {
            let mut d = mk();
            d.consume(&[(i % 5) as f64 * 2.0, 0.0]);
            assert_eq!(c.output()[i], d.output()[0], "item {i}");
        }
    }''')),
dict(id="C15-gradient-tail", prop="C15",
 edits=[("chromaprint/src/gradient.rs", "                    output.push((f2 - f0) / 2.0);\n                }", "                    output.push(if output.len() % 64 == 63 { f2 - f1 } else { (f2 - f0) / 2.0 });\n                }")],
 needs="a sequence of at least 65 values", breaks="every 64th gradient value is one-sided",
 demo=("chromaprint/src/gradient.rs", '''
    #[test]
    fn t() {
        let v: Vec<f64> = (0..200).map(|i| (i * i) as f64).collect();
        let mut o = vec![];
        gradient(v.iter().copied(), &mut o);
        assert_eq!(o.len(), 200);
        for i in 1..199 { assert_eq!(o[i], (v[i + 1] - v[i - 1]) / 2.0, "{i}"); }
    }''')),
]
