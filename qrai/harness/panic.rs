
/// parts of decoding on arbitrary data
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vn {
    use super::__v::*;
    pub fn h_block(bs: usize, dw: usize) -> u64 {
        let mut block = [0u8; 256];
        for i in 0..bs {
            block[i] = __v_in(98, i as u64, 0) as u8;
        }
        let p = crate::version_db::RSParameters { bs, dw, ns: 1 };
        let r = crate::decode::__vn2::block(&mut block[..bs], &p);
        __v_bytes(98, block.as_ptr(), bs as u64);
        r as u64
    }
    pub fn h_payload(n: usize, version: usize) -> u64 {
        crate::decode::__vn2::payload(n, version)
    }
    pub fn h_split(version: usize, level: usize, n: usize) -> u64 {
        crate::decode::__vn2::split(version, level as u16, n)
    }
}
