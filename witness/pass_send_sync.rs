// Values handed out by the library can be moved to and shared between threads.
use rqrr::*;
fn both<T: Send + Sync>(_: &T) {}
fn both_ty<T: Send + Sync + 'static>() {}
fn if_sync<G: BitGrid + Sync>(g: &Grid<G>) {
    fn sync<T: Sync>(_: &T) {}
    sync(g)
}
fn if_send<G: BitGrid + Send>(g: Grid<G>) {
    fn send<T: Send>(_: T) {}
    send(g)
}
pub fn plain() {
    both_ty::<Grid<SimpleGrid>>();
    both_ty::<SimpleGrid>();
    both_ty::<MetaData>();
    both_ty::<RawData>();
    both_ty::<Version>();
    both_ty::<DeQRError>();
    both_ty::<Point>();
}
pub fn detected() {
    let mut img = PreparedImage::prepare_from_greyscale(10, 10, |x, y| (x + y) as u8);
    both(&img);
    let grids = img.detect_grids();
    both(&grids);
    for g in grids {
        if_sync(&g);
        if_send(g);
    }
}
pub fn detected_in_image_buffer(buf: image::GrayImage) {
    let mut img = PreparedImage::prepare(buf);
    both(&img);
    both(&img.detect_grids());
}
