
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vc {
    use super::__v::*;
    use crate::prepare::PixelColor;

    /// any byte of the image: class and back
    pub fn h_byte() -> u64 {
        let x = __v_in(4, 0, 0) as u8;
        let b: u8 = PixelColor::from(x).into();
        __v_out(34, b as u64);
        __v_out(35, (PixelColor::from(x) == x) as u64);
        0
    }
    fn class(k: u64, r: u8) -> PixelColor {
        match k {
            0 => PixelColor::White,
            1 => PixelColor::Black,
            2 => PixelColor::CapStone,
            3 => PixelColor::Alignment,
            4 => PixelColor::Tmp1,
            _ => PixelColor::Discarded(r),
        }
    }
    /// any class and back; class k compared with a byte
    pub fn h_class(k: usize) -> u64 {
        let r = __v_in(4, 0, 0) as u8;
        let c = class(k as u64, r);
        let b: u8 = c.into();
        __v_out(34, b as u64);
        __v_out(36, (PixelColor::from(b) == c) as u64);
        let x = __v_in(4, 0, 1) as u8;
        __v_out(37, (c == x) as u64);
        0
    }
}
