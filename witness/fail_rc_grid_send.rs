//@ codes: E0277
// Grids over bits that must stay in one thread cannot be sent to another thread.
use rqrr::*;
use std::rc::Rc;
pub struct Mine(Rc<Vec<bool>>);
impl BitGrid for Mine {
    fn size(&self) -> usize {
        21
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.0[y * 21 + x]
    }
}
fn send<T: Send>(_: T) {}
pub fn f(g: Mine) {
    let g = Grid::new(g);
    send(g.bounds);
    send(g.grid); //bad
}
pub fn h(g: Grid<Mine>) {
    send(g); //bad
}
