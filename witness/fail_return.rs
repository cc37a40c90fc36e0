//@ codes: E0515,E0597,E0716
// Grids cannot be returned by the function that owns the image.
use rqrr::*;
pub fn f(buf: image::GrayImage) -> Vec<Grid<impl BitGrid>> {
    let mut img = PreparedImage::prepare(buf);
    return img.detect_grids(); //bad
    vec![Grid::new(SimpleGrid::from_func(21, |_, _| false))] //good
}
