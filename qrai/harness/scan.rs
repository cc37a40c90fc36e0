
/// points of a line
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vb {
    use super::__v::*;
    use crate::geometry::BresenhamScan;
    use crate::Point;

    pub fn h_line(dx: i64, dy: i64) -> u64 {
        let (x, y) = (__v_in(72, 0, 0) as i32, __v_in(72, 1, 0) as i32);
        let to = Point { x: x + dx as i32, y: y + dy as i32 };
        let n = dx.abs().max(dy.abs());
        let mut i = 0i64;
        for p in BresenhamScan::new(&Point { x, y }, &to) {
            assert!(i <= n, "more points than the line has");
            let (ox, oy) = ((p.x - x) as i64, (p.y - y) as i64);
            // one step at a time along the longer side, towards the end
            if dx.abs() >= dy.abs() {
                assert!(ox == if dx < 0 { -i } else { i } || dx.abs() == dy.abs(), "a step along the line is missing or too long");
            }
            if dy.abs() >= dx.abs() {
                assert!(oy == if dy < 0 { -i } else { i } || dx.abs() == dy.abs(), "a step along the line is missing or too long");
            }
            // at most one pixel beside it
            let (ex, ey) = (ox * n - dx * i, oy * n - dy * i);
            assert!(ex.abs() <= n && ey.abs() <= n, "a point more than one pixel from the line");
            if i == 0 {
                assert!(ox == 0 && oy == 0, "the line does not start at its first end");
            }
            if i == n {
                assert!(ox == dx && oy == dy, "the line does not end at its last end");
            }
            i += 1;
        }
        assert!(i == n + 1, "fewer points than the line has");
        0
    }
}
