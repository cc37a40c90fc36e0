//@ codes: E0277
// Grids over bits that cannot be shared between threads cannot be shared either.
use rqrr::*;
use std::cell::Cell;
pub struct Mine(Cell<u64>);
impl BitGrid for Mine {
    fn size(&self) -> usize {
        21
    }
    fn bit(&self, _: usize, x: usize) -> bool {
        self.0.set(self.0.get() + 1);
        x & 1 == 0
    }
}
fn sync<T: Sync>(_: &T) {}
fn send<T: Send>(_: &T) {}
pub fn f(g: Grid<Mine>) {
    send(&g);
    sync(&g); //bad
}
