//@ codes: E0506
// The image cannot be replaced while grids are alive.
use rqrr::*;
pub fn f(mut img: PreparedImage<image::GrayImage>, other: PreparedImage<image::GrayImage>) -> bool {
    let grids = img.detect_grids();
    img = other; //bad
    grids[0].decode().is_ok()
}
