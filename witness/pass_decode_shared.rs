// Decoding needs shared access only: many threads can decode the same grid.
use rqrr::*;
type R = Result<(MetaData, String), DeQRError>;
pub fn by_ref<G: BitGrid>(g: &Grid<G>) -> R {
    g.decode()
}
pub fn to<G: BitGrid>(g: &Grid<G>, out: &mut Vec<u8>) -> Result<MetaData, DeQRError> {
    g.decode_to(out)
}
pub fn raw<G: BitGrid>(g: &Grid<G>) -> Result<(MetaData, RawData), DeQRError> {
    g.get_raw_data()
}
pub fn threads() {
    let mut img = PreparedImage::prepare_from_greyscale(10, 10, |x, y| (x + y) as u8);
    let grids = img.detect_grids();
    std::thread::scope(|s| {
        for g in &grids {
            s.spawn(|| g.decode().is_ok());
            s.spawn(|| g.get_raw_data().is_ok());
        }
    });
}
pub fn threads_simple(g: std::sync::Arc<Grid<SimpleGrid>>) {
    let h = std::sync::Arc::clone(&g);
    let t = std::thread::spawn(move || h.decode().is_ok());
    let _ = g.decode();
    let _ = t.join();
}
// results do not keep the grid or the image borrowed
pub fn result_outlives_everything() -> Option<(MetaData, String, RawData)> {
    let mut img = PreparedImage::prepare_from_greyscale(10, 10, |x, y| (x + y) as u8);
    let mut found = None;
    for g in img.detect_grids() {
        if let (Ok((m, s)), Ok((_, r))) = (g.decode(), g.get_raw_data()) {
            found = Some((m, s, r));
        }
    }
    drop(img);
    found
}
// once the grids are gone the image can be searched again
pub fn again() -> usize {
    let mut img = PreparedImage::prepare_from_greyscale(10, 10, |x, y| (x + y) as u8);
    let n = img.detect_grids().len();
    n + img.detect_grids().len()
}
