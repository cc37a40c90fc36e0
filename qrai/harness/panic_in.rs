
/// access to private parts of decoding
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vn2 {
    use super::*;
    use crate::__v::{__v_bytes, __v_in, __v_out};
    pub fn block(b: &mut [u8], p: &crate::version_db::RSParameters) -> bool {
        correct_block(b, p).is_ok()
    }
    /// stands in for correct_block: the environment decides whether the block is good
    pub fn stub(b: &mut [u8], p: &crate::version_db::RSParameters) -> DeQRResult<()> {
        __v_out(96, p.bs as u64);
        __v_out(96, p.dw as u64);
        __v_bytes(95, b.as_ptr(), p.bs as u64);
        if __v_in(97, 0, 0) != 0 {
            Ok(())
        } else {
            Err(DeQRError::DataEcc)
        }
    }
    pub fn split(version: usize, level: u16, n: usize) -> u64 {
        let mut raw = RawData { data: [0u8; MAX_PAYLOAD_SIZE], len: 8 * n };
        for i in 0..n {
            raw.data[i] = __v_in(98, i as u64, 0) as u8;
        }
        let meta = MetaData { version: Version(version), ecc_level: level, mask: 0 };
        match codestream_ecc(&meta, raw) {
            Ok(ds) => {
                __v_out(94, ds.bits_remaining() as u64);
                __v_bytes(93, ds.data.as_ptr(), (ds.bits_remaining() / 8) as u64);
                1
            }
            Err(_) => 0,
        }
    }
    pub fn payload(n: usize, version: usize) -> u64 {
        let mut data = [0u8; MAX_PAYLOAD_SIZE];
        for i in 0..n {
            data[i] = __v_in(98, i as u64, 0) as u8;
        }
        let ds = CorrectedDataStream { data, ptr: 0, bit_len: 8 * n };
        let meta = MetaData { version: Version(version), ecc_level: 0, mask: 0 };
        decode_payload(&meta, ds, crate::__v::W).is_ok() as u64
    }
}
