//@ codes: E0505
// The image cannot be dropped while grids are alive.
use rqrr::*;
pub fn f(mut img: PreparedImage<image::GrayImage>) -> bool {
    let grids = img.detect_grids();
    drop(img); //bad
    grids[0].decode().is_ok()
}
