
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vi {
    use super::__v::*;
    use super::*;
    use crate::prepare::{ImageBuffer, PreparedImage};
    use std::cell::Cell;

    /// image whose pixels are supplied by the analysis
    pub struct B(pub usize, pub usize);
    impl ImageBuffer for B {
        fn width(&self) -> usize {
            self.0
        }
        fn height(&self) -> usize {
            self.1
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            assert!(x < self.0 && y < self.1, "pixel read outside the image");
            __v_in(4, y as u64, x as u64) as u8
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            __v_out(33, val as u64);
        }
    }

    /// image that is being binarised: every pixel is written once, with one of two colours, and not read afterwards.
    /// The value written to the pixel at .3 is kept.
    pub struct P<'a>(pub usize, pub usize, pub &'a [Cell<u8>], pub usize, pub &'a Cell<u8>);
    impl ImageBuffer for P<'_> {
        fn width(&self) -> usize {
            self.0
        }
        fn height(&self) -> usize {
            self.1
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            assert!(x < self.0 && y < self.1, "pixel read outside the image");
            assert!(self.2[y * self.0 + x].get() == 0, "pixel read again after it was overwritten");
            __v_in(4, y as u64, x as u64) as u8
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            assert!(x < self.0 && y < self.1, "pixel written outside the image");
            assert!(val < 2, "pixel value other than black and white");
            let i = y * self.0 + x;
            assert!(self.2[i].get() == 0, "pixel written twice");
            self.2[i].set(1);
            if i == self.3 {
                self.4.set(val);
            }
        }
    }

    fn cells(n: usize) -> Vec<Cell<u8>> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(Cell::new(0));
        }
        v
    }

    /// binarise an image of the given size, report what pixel `at` became
    pub fn h_prepare(w: usize, h: usize, at: usize) -> u64 {
        let v = cells(w * h);
        let c = Cell::new(7);
        let img = PreparedImage::prepare(P(w, h, &v, at, &c));
        for i in 0..w * h {
            assert!(v[i].get() == 1, "pixel never written");
        }
        __v_out(30, img.width() as u64);
        __v_out(31, img.height() as u64);
        if at < w * h {
            __v_out(32, c.get() as u64);
        }
        0
    }

    /// the same through the closure constructor
    pub fn h_grey(w: usize, h: usize, at: usize) -> u64 {
        let img = PreparedImage::prepare_from_greyscale(w, h, |x, y| __v_in(4, y as u64, x as u64) as u8);
        __v_out(30, img.width() as u64);
        __v_out(31, img.height() as u64);
        for i in 0..w * h {
            let p: u8 = img.get_pixel_at(i % w, i / w).into();
            assert!(p < 2, "pixel value other than black and white");
            if i == at {
                __v_out(32, p as u64);
            }
        }
        0
    }

    #[cfg(feature = "img")]
    pub fn h_prepare_luma(w: usize, h: usize, at: usize) -> u64 {
        let mut b = image::GrayImage::new(w as u32, h as u32);
        for y in 0..h {
            for x in 0..w {
                b.put_pixel(x as u32, y as u32, image::Luma([__v_in(4, y as u64, x as u64) as u8]));
            }
        }
        let img = PreparedImage::prepare(b);
        __v_out(30, img.width() as u64);
        __v_out(31, img.height() as u64);
        for i in 0..w * h {
            let p: u8 = img.get_pixel_at(i % w, i / w).into();
            assert!(p < 2, "pixel value other than black and white");
            if i == at {
                __v_out(32, p as u64);
            }
        }
        0
    }

    pub fn h_bitmap(w: usize, h: usize) -> u64 {
        let img = PreparedImage::prepare_from_bitmap(w, h, |x, y| __v_in(3, y as u64, x as u64) != 0);
        __v_out(30, img.width() as u64);
        __v_out(31, img.height() as u64);
        for y in 0..h {
            for x in 0..w {
                let p: u8 = img.get_pixel_at(x, y).into();
                __v_out(32, p as u64);
            }
        }
        0
    }

    pub fn h_without(w: usize, h: usize) -> u64 {
        let img = PreparedImage::without_preparation(B(w, h));
        __v_out(30, img.width() as u64);
        __v_out(31, img.height() as u64);
        for y in 0..h {
            for x in 0..w {
                let p: u8 = img.get_pixel_at(x, y).into();
                __v_out(32, p as u64);
            }
        }
        0
    }

    #[cfg(feature = "img")]
    pub fn h_luma(w: usize, h: usize) -> u64 {
        let mut b = image::GrayImage::new(w as u32, h as u32);
        for y in 0..h {
            for x in 0..w {
                b.put_pixel(x as u32, y as u32, image::Luma([__v_in(4, y as u64, x as u64) as u8]));
            }
        }
        let img = PreparedImage::without_preparation(b);
        __v_out(30, img.width() as u64);
        __v_out(31, img.height() as u64);
        for y in 0..h {
            for x in 0..w {
                let p: u8 = img.get_pixel_at(x, y).into();
                __v_out(32, p as u64);
            }
        }
        0
    }
}
