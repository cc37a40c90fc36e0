// A grid of the caller's own, borrowing its bits, can be decoded without copying it.
use rqrr::*;
pub struct Mine<'a>(pub &'a [bool], pub usize);
impl<'a> BitGrid for Mine<'a> {
    fn size(&self) -> usize {
        self.1
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.0[y * self.1 + x]
    }
}
pub fn f(bits: &[bool], n: usize) -> bool {
    let g = Grid::new(Mine(bits, n));
    let d: &dyn BitGrid = &g.grid;
    d.size() == n && g.decode().is_ok()
}
pub fn error_is_an_error(e: DeQRError) -> Box<dyn std::error::Error + Send + Sync> {
    Box::new(e)
}
