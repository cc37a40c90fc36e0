
/// test of a group of finder patterns, with every geometric step free to fail
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vg {
    use super::__v::*;
    use super::__vz::D;
    use crate::geometry::Perspective;
    use crate::identify::match_capstones::CapStoneGroup;
    use crate::prepare::{ImageBuffer, PixelColor, PreparedImage};
    use crate::{CapStone, Point, SkewedGridLocation};

    fn flat(x: i32, y: i32) -> Perspective {
        Perspective([1.0, 0.0, x as f64, 0.0, 1.0, y as f64, 0.0, 0.0])
    }
    pub fn stone(x: i32, y: i32, turn: usize) -> CapStone {
        let mut corners = [Point { x, y }, Point { x: x + 7, y }, Point { x: x + 7, y: y + 7 }, Point { x, y: y + 7 }];
        corners.rotate_left(turn);
        CapStone { corners, center: Point { x: x + 4, y: y + 4 }, c: flat(x, y) }
    }
    /// a perspective, or none
    pub fn create(rect: &[Point; 4], w: f64, h: f64) -> Option<Perspective> {
        if __v_in(60, 0, 0) != 0 {
            Some(flat(rect[0].x, rect[0].y))
        } else {
            None
        }
    }
    pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
        match __v_in(61, 0, 0) {
            0 => None,
            1 => Some(Point { x: 22, y: 22 }),
            2 => Some(Point { x: i32::MAX, y: i32::MIN }),
            3 => Some(Point { x: i32::MIN, y: i32::MIN }),
            _ => Some(Point { x: -5, y: 3000 }),
        }
    }
    pub fn timing_scan<S: ImageBuffer>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize {
        __v_in(62, 0, 0) as usize
    }
    pub fn find_alignment_pattern<S: ImageBuffer>(img: &mut PreparedImage<S>, seed: Point, c0: &CapStone, c2: &CapStone) -> Option<Point> {
        if __v_in(63, 0, 0) != 0 {
            Some(Point { x: 22, y: 22 })
        } else {
            None
        }
    }
    pub fn jiggle_perspective<S: ImageBuffer>(img: &PreparedImage<S>, perspective: Perspective, grid_size: usize) -> Perspective {
        perspective
    }
    pub fn h_group(turn: usize, place: usize) -> u64 {
        let mut img = PreparedImage::without_preparation(D(22, 22, 1));
        let (a, b, c) = (stone(2, 22, turn & 3), stone(2, 2, turn >> 2 & 3), stone(22, 2, turn >> 4 & 3));
        let g = match place {
            0 => CapStoneGroup(a, b, c),
            1 => CapStoneGroup(c, b, a),
            // three in a line, and three in one place
            2 => CapStoneGroup(stone(2, 2, turn & 3), stone(12, 2, 0), stone(22, 2, 0)),
            _ => CapStoneGroup(stone(2, 2, 0), stone(2, 2, turn & 3), stone(2, 2, 0)),
        };
        match SkewedGridLocation::from_group(&mut img, g) {
            None => 1,
            Some(_) => 0,
        }
    }
    /// alignment pattern search from anywhere, towards anywhere
    pub fn far_map(c: &Perspective, u: f64, v: f64) -> Point {
        let k = __v_in(64, 0, 0);
        let at = |k: u64| match k {
            0 => 20,
            1 => 25,
            2 => -7,
            3 => 100_000,
            4 => i32::MAX,
            _ => i32::MIN,
        };
        Point { x: at(k % 6), y: at(k / 6) }
    }
    /// mapping through any coefficients
    pub fn h_map(which: usize, u: usize, v: usize) -> u64 {
        const V: [f64; 12] = [0.0, 1.0, -1.0, 0.5, -0.25, 1e-12, 1e9, -3e9, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        let mut c = [1.0, 0.0, 3.0, 0.0, 1.0, 4.0, 0.0, 0.0];
        c[which % 8] = V[which / 8 % 12];
        c[(which / 96 + 1 + which) % 8] = V[which / 768 % 12];
        let p = Perspective(c);
        let m = p.map(V[u], V[v]);
        __v_out(66, m.x as i64 as u64);
        __v_out(66, m.y as i64 as u64);
        0
    }
}
