//@ codes: E0597,E0521,E0373
// A detected grid cannot be given to a thread that may outlive the image.
use rqrr::*;
pub fn f(buf: image::GrayImage) {
    let mut img = PreparedImage::prepare(buf);
    let grids = img.detect_grids();
    std::thread::spawn(move || grids.len()); //bad
}
