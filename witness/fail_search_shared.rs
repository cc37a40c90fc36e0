//@ codes: E0596
// Searching through a shared reference is rejected.
use rqrr::*;
pub fn f(img: &PreparedImage<image::GrayImage>) -> usize {
    img.detect_grids(); //bad
    img.width()
}
