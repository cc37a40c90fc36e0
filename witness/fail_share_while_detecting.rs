//@ codes: E0502
// Nobody else can look at the image while it is searched: searching is exclusive.
use rqrr::*;
pub fn f(mut img: PreparedImage<image::GrayImage>) -> usize {
    let shared = &img;
    let n = shared.width();
    img.detect_grids(); //bad
    n + shared.height()
}
