
/// colour changes along a line, leftmost point of a region
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vbg {
    use super::{timing_scan, LeftMostFinder};
    use crate::__v::*;
    use crate::prepare::{AreaFiller, ImageBuffer, PreparedImage, Row};
    use crate::Point;

    /// image that is black and white as the analysis says
    pub struct U(pub usize, pub usize);
    impl ImageBuffer for U {
        fn width(&self) -> usize {
            self.0
        }
        fn height(&self) -> usize {
            self.1
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            assert!(x < self.0 && y < self.1, "pixel read outside the image");
            __v_in(73, y as u64, x as u64) as u8
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            assert!(false, "pixel written");
        }
    }
    /// a line along a row, a column or a diagonal
    pub fn h_count(w: i64, h: i64, x: i64, y: i64, dx: i64, dy: i64, n: i64) -> u64 {
        let img = PreparedImage::without_preparation(U(w as usize, h as usize));
        let at = |i: i64| __v_in(73, (y + i * dy).clamp(0, h - 1) as u64, (x + i * dx).clamp(0, w - 1) as u64);
        let got = timing_scan(&img, &Point { x: x as i32, y: y as i32 }, &Point { x: (x + n * dx) as i32, y: (y + n * dy) as i32 });
        let mut want = 0;
        let mut i = 1;
        while i <= n {
            want += (at(i) ^ at(i - 1)) as usize;
            i += 1;
        }
        assert!(got == want, "the number of colour changes is wrong");
        0
    }
    pub fn h_left(lx: i64, ly: i64, x: i64, y: i64) -> u64 {
        let line_p = Point { x: lx as i32, y: ly as i32 };
        let score = |p: Point| -ly * p.x as i64 + lx * p.y as i64;
        let start = Point { x: x as i32, y: y as i32 };
        let mut f = LeftMostFinder { line_p, best: start, score: score(start) as i32 };
        let (l, r, t) = (__v_in(74, 0, 0), __v_in(74, 1, 0), __v_in(74, 2, 0));
        f.update(Row { left: l as usize, right: r as usize, y: t as usize });
        let (a, b) = (Point { x: l as i32, y: t as i32 }, Point { x: r as i32, y: t as i32 });
        let got = score(f.best);
        assert!(f.best == a || f.best == b || f.best == start, "not a point of the region");
        assert!(got <= score(a) && got <= score(b) && got <= score(start), "a point further left is passed over");
        assert!(f.score as i64 == got, "score of another point");
        0
    }
}
