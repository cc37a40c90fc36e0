//@ codes: E0597,E0502
// Grids cannot be used after the image's scope has ended.
use rqrr::*;
pub fn f(buf: image::GrayImage) -> usize {
    let mut n = 0;
    let mut keep = Vec::new();
    let mut outer = PreparedImage::prepare(buf.clone());
    keep.extend(outer.detect_grids());
    {
        let mut img = PreparedImage::prepare(buf);
        keep.extend(img.detect_grids()); //bad
        n += img.width();
    }
    n + keep.len()
}
