
/// alignment pattern search from anywhere, towards anywhere
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vga {
    use crate::__v::*;
    use crate::__vz::D;
    use crate::prepare::PreparedImage;
    use crate::Point;

    pub fn h_align(x: u64, y: u64, black: u64) -> u64 {
        let mut img = PreparedImage::without_preparation(D(22, 22, black as u8));
        let (a, c) = (crate::__vg::stone(2, 22, 0), crate::__vg::stone(22, 2, 0));
        let seed = Point { x: x as i64 as i32, y: y as i64 as i32 };
        match super::find_alignment_pattern(&mut img, seed, &a, &c) {
            None => 1,
            Some(p) => {
                __v_out(65, p.x as i64 as u64);
                __v_out(65, p.y as i64 as u64);
                0
            }
        }
    }
}
