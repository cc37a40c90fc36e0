
/// plane geometry on unknown numbers
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vg {
    use super::__v::*;
    use crate::geometry::*;
    use crate::Point;

    pub fn int(i: u64) -> i32 {
        __v_in(80, i, 0) as i64 as i32
    }
    pub fn real(i: u64) -> f64 {
        f64::from_bits(__v_in(81, i, 0))
    }
    pub fn point(i: u64) -> Point {
        Point { x: int(2 * i), y: int(2 * i + 1) }
    }
    pub fn put(tag: u64, p: Point) {
        __v_out(tag, p.x as i64 as u64);
        __v_out(tag, p.y as i64 as u64);
    }

    /// where a corner of the rectangle goes
    pub fn h_corner(i: usize) -> u64 {
        let r = [point(0), point(1), point(2), point(3)];
        let (w, h) = (real(0), real(1));
        match Perspective::create(&r, w, h) {
            None => 1,
            Some(c) => {
                let (u, v) = match i {
                    0 => (0.0, 0.0),
                    1 => (w, 0.0),
                    2 => (w, h),
                    _ => (0.0, h),
                };
                put(82, c.map(u, v));
                0
            }
        }
    }

    /// from the image to the grid and back
    pub fn h_unmap() -> u64 {
        let r = [point(0), point(1), point(2), point(3)];
        match Perspective::create(&r, real(0), real(1)) {
            None => 1,
            Some(c) => {
                let (u, v) = c.unmap(&point(4));
                put(82, c.map(u, v));
                0
            }
        }
    }
    /// from the grid to the image and back (the image point is not rounded to a pixel here: it is one)
    pub fn h_line() -> u64 {
        match line_intersect(&point(0), &point(1), &point(2), &point(3)) {
            None => 1,
            Some(p) => {
                put(82, p);
                0
            }
        }
    }
}
