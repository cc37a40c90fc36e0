//@ codes: E0499
// The bits alone, taken out of the grid, keep the image borrowed as well.
use rqrr::*;
pub fn f(mut img: PreparedImage<image::GrayImage>) -> bool {
    let bits = img.detect_grids().pop().unwrap().grid;
    img.detect_grids(); //bad
    bits.bit(0, 0)
}
