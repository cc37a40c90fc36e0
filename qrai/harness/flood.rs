
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vf {
    use super::__v::*;
    use crate::prepare::{ColoredRegion, ImageBuffer, PixelColor, PreparedImage, Row};
    use std::cell::Cell;

    /// image held by the analysis entry point
    pub struct M<'a>(pub usize, pub usize, pub &'a [Cell<u8>]);
    impl ImageBuffer for M<'_> {
        fn width(&self) -> usize {
            self.0
        }
        fn height(&self) -> usize {
            self.1
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            assert!(x < self.0 && y < self.1, "pixel read outside the image");
            self.2[y * self.0 + x].get()
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            assert!(x < self.0 && y < self.1, "pixel written outside the image");
            self.2[y * self.0 + x].set(val)
        }
    }
    pub fn load(w: usize, h: usize) -> Vec<Cell<u8>> {
        let mut v = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                v.push(Cell::new(__v_in(4, y as u64, x as u64) as u8));
            }
        }
        v
    }
    pub fn image<'a>(w: usize, h: usize, v: &'a [Cell<u8>]) -> PreparedImage<M<'a>> {
        // built from a white image: the constructor only admits two colours
        let keep: Vec<u8> = v.iter().map(|c| c.replace(0)).collect();
        let img = if __v_in(57, 0, 0) == 0 { PreparedImage::without_preparation(M(w, h, v)) } else { PreparedImage::prepare(M(w, h, v)) };
        for (c, k) in v.iter().zip(keep) {
            c.set(k);
        }
        img
    }

    pub fn h_fill(w: usize, h: usize, at: usize, target: usize) -> u64 {
        let v = load(w, h);
        let mut img = image(w, h, &v);
        let mut cover: Vec<u8> = Vec::new();
        cover.resize(w * h, 0);
        let (cw, ch) = (w, h);
        let cover = img.repaint_and_apply((at % w, at / w), PixelColor::from(target as u8), Cover(w, h, cover));
        for i in 0..w * h {
            __v_out(32, v[i].get() as u64);
        }
        for i in 0..w * h {
            __v_out(38, cover.2[i] as u64);
        }
        0
    }
    /// the cells are a part of a large image that is white elsewhere
    pub struct Part<'a>(pub &'a Cell<bool>, pub usize, pub usize, pub usize, pub usize, pub &'a [Cell<u8>]);
    impl ImageBuffer for Part<'_> {
        fn width(&self) -> usize {
            if self.0.get() { 1 << 44 } else { 0 }
        }
        fn height(&self) -> usize {
            if self.0.get() { 1 << 44 } else { 0 }
        }
        fn get_pixel(&self, x: usize, y: usize) -> u8 {
            assert!(x < 1 << 44 && y < 1 << 44, "pixel read outside the image");
            if x < self.1 || y < self.2 || x >= self.1 + self.3 || y >= self.2 + self.4 {
                return 0;
            }
            self.5[(y - self.2) * self.3 + (x - self.1)].get()
        }
        fn set_pixel(&mut self, x: usize, y: usize, val: u8) {
            assert!(x >= self.1 && y >= self.2 && x < self.1 + self.3 && y < self.2 + self.4, "a pixel that is not in the region is written");
            self.5[(y - self.2) * self.3 + (x - self.1)].set(val)
        }
    }
    pub fn h_part(w: usize, h: usize, at: usize, target: usize) -> u64 {
        let v = load(w, h);
        let on = Cell::new(false);
        let (x, y) = (__v_in(58, 0, 0) as usize, __v_in(58, 1, 0) as usize);
        let mut img = PreparedImage::without_preparation(Part(&on, x, y, w, h, &v));
        on.set(true);
        let mut cover: Vec<u8> = Vec::new();
        cover.resize(w * h, 0);
        let cover = img.repaint_and_apply((x + at % w, y + at / w), PixelColor::from(target as u8), PartCover(x, y, w, h, cover));
        for i in 0..w * h {
            __v_out(32, v[i].get() as u64);
        }
        for i in 0..w * h {
            __v_out(38, cover.4[i] as u64);
        }
        0
    }
    pub struct PartCover(usize, usize, usize, usize, Vec<u8>);
    impl crate::prepare::AreaFiller for PartCover {
        fn update(&mut self, row: Row) {
            assert!(row.left <= row.right && row.left >= self.0 && row.right < self.0 + self.2 && row.y >= self.1 && row.y < self.1 + self.3, "row outside the region");
            let y = row.y - self.1;
            for x in row.left - self.0..=row.right - self.0 {
                self.4[y * self.2 + x] += 1;
            }
        }
    }
    pub struct Cover(usize, usize, Vec<u8>);
    impl crate::prepare::AreaFiller for Cover {
        fn update(&mut self, row: Row) {
            assert!(row.left <= row.right && row.right < self.0 && row.y < self.1, "row outside the image");
            for x in row.left..=row.right {
                self.2[row.y * self.0 + x] += 1;
            }
        }
    }

    pub fn region(r: ColoredRegion) {
        match r {
            ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => {
                __v_out(60, 0);
                let c: u8 = color.into();
                __v_out(61, c as u64);
                __v_out(62, src_x as u64);
                __v_out(63, src_y as u64);
                __v_out(64, pixel_count as u64);
            }
            ColoredRegion::CapStone => __v_out(60, 1),
            ColoredRegion::Alignment => __v_out(60, 2),
            ColoredRegion::Tmp1 => __v_out(60, 3),
        }
    }

    /// get_region in an arbitrary consistent state of the region table
    pub fn h_region(w: usize, h: usize, at: usize) -> u64 {
        let v = load(w, h);
        let mut img = image(w, h, &v);
        let r = img.get_region((at % w, at / w));
        region(r);
        for i in 0..w * h {
            __v_out(32, v[i].get() as u64);
        }
        0
    }
}

/// the region table as seen by get_region: contents decided by the analysis
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vl {
    use super::__v::*;
    use crate::prepare::{ColoredRegion, PixelColor};
    use lru::LruCache;
    type C = LruCache<u8, ColoredRegion>;
    pub fn lru_new(cap: std::num::NonZeroUsize) -> C {
        unsafe {
            let mut m = std::mem::MaybeUninit::<C>::uninit();
            *(m.as_mut_ptr() as *mut usize) = cap.get();
            m.assume_init()
        }
    }
    pub fn lru_cap(c: &C) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(unsafe { *(c as *const C as *const usize) }).unwrap()
    }
    pub fn lru_len(c: &C) -> usize {
        __v_in(50, lru_cap(c).get() as u64, 0) as usize
    }
    fn entry(k: u8, tag: u64) -> ColoredRegion {
        match __v_in(tag, 0, 0) {
            0 => ColoredRegion::Unclaimed {
                color: PixelColor::Discarded(k),
                src_x: __v_in(tag, 1, 0) as usize,
                src_y: __v_in(tag, 2, 0) as usize,
                pixel_count: __v_in(tag, 3, 0) as usize,
            },
            1 => ColoredRegion::CapStone,
            2 => ColoredRegion::Alignment,
            _ => ColoredRegion::Tmp1,
        }
    }
    pub fn lru_get<'a>(c: &'a mut C, k: &u8) -> Option<&'a ColoredRegion> {
        __v_out(51, *k as u64);
        Some(Box::leak(Box::new(entry(*k, 54))))
    }
    pub fn lru_peek<'a>(c: &'a C, k: &u8) -> Option<&'a ColoredRegion> {
        __v_out(51, *k as u64);
        Some(Box::leak(Box::new(entry(*k, 54))))
    }
    pub fn lru_pop_lru(c: &mut C) -> Option<(u8, ColoredRegion)> {
        __v_out(52, 1);
        let k = __v_in(55, 4, lru_cap(c).get() as u64) as u8;
        Some((k, entry(k, 55)))
    }
    pub fn lru_put(c: &mut C, k: u8, v: ColoredRegion) -> Option<ColoredRegion> {
        __v_out(53, k as u64);
        super::__vf::region(v);
        None
    }
}
