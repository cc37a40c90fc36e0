//@ codes: E0499
// One grid taken out of the list keeps the image borrowed as well.
use rqrr::*;
pub fn f(mut img: PreparedImage<image::GrayImage>) -> bool {
    let grid = img.detect_grids().pop().unwrap();
    img.detect_grids(); //bad
    grid.decode().is_ok()
}
