
/// grouping of finder patterns, with the test of a group replaced by marks on the image it gets
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vt {
    use super::__v::*;
    use crate::geometry::Perspective;
    use crate::identify::match_capstones::CapStoneGroup;
    use crate::prepare::{AreaFiller, ColoredRegion, ImageBuffer, PixelColor, PreparedImage, Row};
    use crate::{CapStone, Point, SkewedGridLocation};

    const MARKS: usize = 48;

    /// image that owns its pixels: a copy has its own
    #[derive(Clone)]
    pub struct O(pub usize, pub usize, pub Vec<u8>);
    impl ImageBuffer for O {
        fn width(&self) -> usize {
            self.0
        }
        fn height(&self) -> usize {
            self.1
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            assert!(x < self.0 && y < self.1, "pixel read outside the image");
            self.2[y * self.0 + x]
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            assert!(x < self.0 && y < self.1, "pixel written outside the image");
            self.2[y * self.0 + x] = val
        }
    }
    struct Nop;
    impl AreaFiller for Nop {
        fn update(&mut self, _: Row) {}
    }

    /// isolated black pixels in two rows
    fn image() -> PreparedImage<O> {
        let mut v = vec![0u8; 2 * MARKS * 3];
        for i in 0..MARKS {
            v[2 * i] = 1;
            v[2 * 2 * MARKS + 2 * i] = 1;
        }
        PreparedImage::without_preparation(O(2 * MARKS, 3, v))
    }

    /// a finder pattern of 7 by 7 pixels in row r and column c of a lattice
    fn stone(k: usize) -> CapStone {
        let (x, y) = (__v_in(96, 2 * k as u64, 0) as i64 as i32, __v_in(96, 2 * k as u64 + 1, 0) as i64 as i32);
        let corners = [Point { x, y }, Point { x: x + 7, y }, Point { x: x + 7, y: y + 7 }, Point { x, y: y + 7 }];
        let c = Perspective::create(&corners, 7.0, 7.0).unwrap();
        let center = c.map(3.5, 3.5);
        CapStone { corners, center, c }
    }
    pub fn capstones_from_image<S: ImageBuffer>(img: &mut PreparedImage<S>) -> Vec<CapStone> {
        let n = __v_in(95, 0, 0) as usize;
        let mut v = Vec::new();
        for k in 0..n {
            v.push(stone(k));
        }
        v
    }
    fn index(c: &CapStone) -> u64 {
        let n = __v_in(95, 0, 0) as usize;
        for k in 0..n {
            if stone(k).center == c.center {
                return k as u64;
            }
        }
        99
    }
    fn seen<S: ImageBuffer>(img: &PreparedImage<S>, i: usize) -> bool {
        PixelColor::Black != img.get_pixel_at(2 * i, 0) || PixelColor::Black != img.get_pixel_at(2 * i, 2)
    }

    pub fn from_group<S: ImageBuffer>(img: &mut PreparedImage<S>, g: CapStoneGroup) -> Option<SkewedGridLocation> {
        let n = __v_in(88, 0, 0) as usize;
        let id = index(&g.0) * 10000 + index(&g.1) * 100 + index(&g.2);
        __v_out(90, id);
        for i in 0..n {
            if seen(img, i) {
                __v_out(91, (n * 1000 + i) as u64);
            }
        }
        assert!(n < MARKS, "marks used up");
        img.repaint_and_apply((2 * n, 0), PixelColor::Alignment, Nop);
        img.get_region((2 * n, 2));
        let yes = __v_in(89, id, 0) != 0;
        __v_out(92, yes as u64);
        if yes { Some(SkewedGridLocation { grid_size: 21, c: g.1.c.clone() }) } else { None }
    }

    pub fn h_detect() -> u64 {
        let mut img = image();
        let n = img.detect_grids().len();
        __v_out(94, n as u64);
        for i in 0..MARKS {
            if seen(&img, i) {
                __v_out(93, i as u64);
            }
        }
        0
    }

    /// a copy is the same image, and a different one
    pub fn h_copy(k: usize) -> u64 {
        let mut img = image();
        for i in 0..k {
            img.get_region((2 * i, 2 * (i & 1)));
        }
        let mut copy = img.clone();
        assert!(copy.width() == img.width() && copy.height() == img.height(), "copy of another size");
        for y in 0..3 {
            for x in 0..2 * MARKS {
                assert!(copy.get_pixel_at(x, y) == img.get_pixel_at(x, y), "pixel differs in the copy");
            }
        }
        // known regions are known in the copy, and further ones get other numbers
        for i in 0..k + 3 {
            let at = (2 * i, 2 * (i & 1));
            let r = copy.get_region(at);
            match r {
                ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => {
                    assert!((src_x, src_y) == at && pixel_count == 1, "another region in the copy");
                    for j in 0..i {
                        assert!(copy.get_pixel_at(2 * j, 2 * (j & 1)) != color, "region number used twice");
                    }
                }
                _ => panic!("another kind of region in the copy"),
            }
        }
        copy.repaint_and_apply((0, 0), PixelColor::CapStone, Nop);
        copy.repaint_and_apply((2 * (k + 3), 2), PixelColor::Alignment, Nop);
        for i in 0..MARKS {
            let (a, b) = (img.get_pixel_at(2 * i, 0), img.get_pixel_at(2 * i, 2));
            let c = if i < k { [a, b][i & 1] } else { PixelColor::Discarded(0) };
            assert!(matches!(c, PixelColor::Discarded(_)), "the original lost a region");
            let o = if i < k { [b, a][i & 1] } else { a };
            assert!(o == PixelColor::Black && (i < k || b == PixelColor::Black), "the original was changed");
        }
        for i in 0..k {
            let r = img.get_region((2 * i, 2 * (i & 1)));
            assert!(matches!(r, ColoredRegion::Unclaimed { src_x, .. } if src_x == 2 * i), "the original's regions were changed");
        }
        0
    }
}
