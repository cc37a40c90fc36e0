
/// size of a detected grid, with the number of colour changes on the timing lines unknown
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vz {
    use super::__v::*;
    use crate::geometry::Perspective;
    use crate::identify::match_capstones::CapStoneGroup;
    use crate::prepare::{ImageBuffer, PixelColor, PreparedImage};
    use crate::{CapStone, Point, SkewedGridLocation};

    /// image with one black pixel
    pub struct D(pub usize, pub usize, pub u8);
    impl ImageBuffer for D {
        fn width(&self) -> usize {
            32
        }
        fn height(&self) -> usize {
            32
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            if (x, y) == (self.0, self.1) { self.2 } else { 0 }
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            if (x, y) == (self.0, self.1) {
                self.2 = val;
            }
        }
    }
    fn stone(x: i32, y: i32, turn: usize) -> CapStone {
        let mut corners = [Point { x, y }, Point { x: x + 7, y }, Point { x: x + 7, y: y + 7 }, Point { x, y: y + 7 }];
        corners.rotate_left(turn);
        let c = Perspective::create(&corners, 7.0, 7.0).unwrap();
        let center = c.map(3.5, 3.5);
        CapStone { corners, center, c }
    }
    pub fn timing_scan<S: ImageBuffer>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize {
        // the line to the right, or the line down
        let (dx, dy) = (p1.x - p0.x, p1.y - p0.y);
        let right = dx.abs() > dy.abs();
        __v_out(97, right as u64);
        __v_in(97, right as u64, 0) as usize
    }
    pub fn find_alignment_pattern<S: ImageBuffer>(img: &mut PreparedImage<S>, seed: Point, c0: &CapStone, c2: &CapStone) -> Option<Point> {
        Some(Point { x: 22, y: 22 })
    }
    pub fn setup_perspective<S: ImageBuffer>(img: &PreparedImage<S>, caps: &CapStoneGroup, align: Point, grid_size: usize) -> Option<Perspective> {
        Some(caps.1.c.clone())
    }
    pub fn h_size(turn: usize, swap: usize) -> u64 {
        let mut v = Vec::new();
        let mut img = PreparedImage::without_preparation(D(22, 22, 1));
        let (a, b, c) = (stone(2, 22, turn & 3), stone(2, 2, turn >> 2 & 3), stone(22, 2, turn >> 4 & 3));
        let g = if swap == 0 { CapStoneGroup(a, b, c) } else { CapStoneGroup(c, b, a) };
        match SkewedGridLocation::from_group(&mut img, g) {
            None => 1,
            Some(l) => {
                let g = l.into_grid_image(&img);
                v.push(crate::BitGrid::size(&g));
                __v_out(20, v[0] as u64);
                0
            }
        }
    }
}
