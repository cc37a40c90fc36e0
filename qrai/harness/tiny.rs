
/// search of images without room for three finder patterns
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vy {
    use super::__v::*;
    use crate::PreparedImage;

    pub fn h_tiny(w: usize, h: usize) -> u64 {
        let mut img = PreparedImage::prepare_from_bitmap(w, h, |x, y| __v_in(70, y as u64, x as u64) != 0);
        img.detect_grids().len() as u64
    }
    pub fn h_grey(w: usize, h: usize) -> u64 {
        let mut img = PreparedImage::prepare_from_greyscale(w, h, |x, y| __v_in(71, y as u64, x as u64) as u8);
        img.detect_grids().len() as u64
    }
}
