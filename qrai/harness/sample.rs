
/// reading a detected grid
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vs {
    use super::__v::*;
    use super::__vg::*;
    use crate::geometry::*;
    use crate::prepare::{ImageBuffer, PreparedImage};
    use crate::{BitGrid, Point, SkewedGridLocation};
    use std::cell::Cell;

    /// image that tells where it is read
    pub struct I<'a>(pub usize, pub usize, pub &'a Cell<bool>);
    impl ImageBuffer for I<'_> {
        fn width(&self) -> usize {
            self.0
        }
        fn height(&self) -> usize {
            self.1
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            if !self.2.get() {
                return 0;
            }
            __v_out(82, x as u64);
            __v_out(82, y as u64);
            __v_in(83, 0, 0) as u8
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            __v_out(33, val as u64);
        }
    }

    pub fn h_bit(w: usize, h: usize, n: usize) -> u64 {
        let on = Cell::new(false);
        let img = PreparedImage::without_preparation(I(w, h, &on));
        let r = [point(0), point(1), point(2), point(3)];
        match Perspective::create(&r, real(0), real(1)) {
            None => 1,
            Some(c) => {
                let loc = SkewedGridLocation { grid_size: n, c };
                let g = loc.into_grid_image(&img);
                __v_out(20, g.size() as u64);
                on.set(true);
                let b = g.bit(__v_in(80, 9, 0) as usize, __v_in(80, 8, 0) as usize);
                __v_out(84, b as u64);
                0
            }
        }
    }
}
