//@ codes: E0499
// The image cannot be searched again (which repaints it) while grids of the last search are alive.
use rqrr::*;
pub fn f(x: u8) -> bool {
    let mut img = PreparedImage::prepare_from_greyscale(10, 10, |_, _| x);
    let grids = img.detect_grids();
    img.detect_grids(); //bad
    grids[0].decode().is_ok()
}
