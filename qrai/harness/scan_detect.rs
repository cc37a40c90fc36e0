
/// rows of pixels, corners of regions
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vbd {
    use super::{AllCornerFinder, FirstCornerFinder, LineScanner};
    use crate::__v::*;
    use crate::prepare::{AreaFiller, PixelColor, Row};
    use crate::Point;

    fn color(b: u64) -> PixelColor {
        if b != 0 { PixelColor::Black } else { PixelColor::White }
    }
    /// a row of unknown pixels and a final white one: every report is five runs black to black
    pub fn h_row(n: usize) -> u64 {
        let px = |i: usize| if i < n { __v_in(75, i as u64, 0) } else { 0 };
        let mut s = LineScanner::new(color(px(0)));
        let mut i = 1;
        // bounds of the last runs, newest last: run k starts at from[k]
        let mut from = [0usize; 7];
        let mut runs = 1;
        while i <= n {
            let b = px(i);
            let change = b != px(i - 1);
            let rep = s.advance(color(b));
            if change {
                from.rotate_left(1);
                from[6] = i;
                runs += 1;
            }
            // from[1..6] are the starts of the five finished runs
            let f = [from[1], from[2], from[3], from[4], from[5]];
            let len = [f[1] - f[0], f[2] - f[1], f[3] - f[2], f[4] - f[3], i - f[4]];
            let full = change && b == 0 && runs >= 6;
            match rep {
                Some(p) => {
                    assert!(full, "a finder pattern is reported where no five runs end");
                    assert!(p.left == f[0] && p.stone == f[2] && p.right == f[4], "the reported positions are not those of the runs");
                    assert!(len[2] > len[0] && len[2] > len[1] && len[2] > len[3] && len[2] > len[4], "reported although the middle run is not the longest");
                }
                None => {
                    let k = len[0];
                    assert!(!(full && len[1] == k && len[2] == 3 * k && len[3] == k && len[4] == k), "an exact finder pattern is not reported");
                }
            }
            i += 1;
        }
        0
    }
    /// runs of given lengths after some unknown pixels; the fifth ends at a white pixel
    pub fn h_runs(pre: usize, len: [usize; 5]) -> u64 {
        let mut s = LineScanner::new(color(if pre > 0 { __v_in(75, 0, 0) } else { 0 }));
        let mut i = 1;
        while i < pre {
            s.advance(color(__v_in(75, i as u64, 0)));
            i += 1;
        }
        if pre > 0 {
            s.advance(PixelColor::White);
        }
        let start = if pre > 0 { pre + 1 } else { 1 };
        let mut black = true;
        for n in len {
            let mut k = 0;
            while k < n {
                let r = s.advance(if black { PixelColor::Black } else { PixelColor::White });
                if k > 0 {
                    assert!(r.is_none(), "a report inside a run");
                }
                k += 1;
            }
            black = !black;
        }
        match s.advance(PixelColor::White) {
            None => 1,
            Some(p) => {
                assert!(p.left == start && p.stone == start + len[0] + len[1] && p.right == start + len[0] + len[1] + len[2] + len[3], "the reported positions are not those of the runs");
                0
            }
        }
    }
    pub fn h_runs5(pre: usize, a: usize, b: usize, c: usize, d: usize, e: usize) -> u64 {
        h_runs(pre, [a, b, c, d, e])
    }

    fn row(k: u64) -> Row {
        Row { left: __v_in(74, 3 * k, 0) as usize, right: __v_in(74, 3 * k + 1, 0) as usize, y: __v_in(74, 3 * k + 2, 0) as usize }
    }
    fn ends(r: &Row) -> [Point; 2] {
        [Point { x: r.left as i32, y: r.y as i32 }, Point { x: r.right as i32, y: r.y as i32 }]
    }
    pub fn h_first(x: i64, y: i64) -> u64 {
        let start = Point { x: x as i32, y: y as i32 };
        let dist = |p: Point| (p.x as i64 - x) * (p.x as i64 - x) + (p.y as i64 - y) * (p.y as i64 - y);
        let mut f = FirstCornerFinder::new(start);
        let (a, b) = (row(0), row(1));
        let all = [ends(&a), ends(&b)];
        f.update(a);
        f.update(b);
        let best = f.best();
        assert!(all[0].contains(&best) || all[1].contains(&best), "not a point of the region");
        for e in all {
            assert!(dist(e[0]) <= dist(best) && dist(e[1]) <= dist(best), "a point further away is passed over");
        }
        0
    }
    pub fn h_all(x: i64, y: i64, cx: i64, cy: i64) -> u64 {
        let start = Point { x: x as i32, y: y as i32 };
        let (bx, by) = (cx - x, cy - y);
        let mut f = AllCornerFinder::new(start, Point { x: cx as i32, y: cy as i32 });
        let (a, b) = (row(0), row(1));
        let all = [ends(&a), ends(&b)];
        f.update(a);
        f.update(b);
        let best = f.best();
        let j = __v_in(76, 0, 0) as usize;
        // towards the corner, to its left, away from it, to its right
        let score = |p: Point| {
            let (par, ort) = (p.x as i64 * bx + p.y as i64 * by, -(p.x as i64) * by + p.y as i64 * bx);
            [par, ort, -par, -ort][j]
        };
        assert!(all[0].contains(&best[j]) || all[1].contains(&best[j]) || best[j] == start, "not a point of the region");
        for e in all {
            assert!(score(e[0]) <= score(best[j]) && score(e[1]) <= score(best[j]), "a point further out is passed over");
        }
        assert!(score(start) <= score(best[j]), "a point further out is passed over");
        0
    }
}
