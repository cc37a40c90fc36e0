
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __v {
    use super::*;
    use std::io::Write;

    // environment hooks: intercepted by the analysis, bodies are never looked at
    #[inline(never)]
    pub fn __v_in(_tag: u64, _a: u64, _b: u64) -> u64 {
        loop {}
    }
    #[inline(never)]
    pub fn __v_out(_tag: u64, _v: u64) {
        loop {}
    }
    #[inline(never)]
    pub fn __v_bytes(_tag: u64, _p: *const u8, _n: u64) {
        loop {}
    }
    #[inline(never)]
    pub fn __v_write(_p: *const u8, _n: u64) {
        loop {}
    }

    /// grid whose size and modules are supplied by the analysis
    pub struct G(pub usize);
    impl BitGrid for G {
        fn size(&self) -> usize {
            self.0
        }
        fn bit(&self, y: usize, x: usize) -> bool {
            __v_in(0, y as u64, x as u64) != 0
        }
    }

    /// writer that accepts everything
    pub struct W;
    impl Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            __v_write(b.as_ptr(), b.len() as u64);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }

    /// writer that may fail, accept nothing, accept one byte, or be interrupted: the environment decides
    pub struct WF(pub bool);
    impl Write for WF {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.0 {
                __v_out(40, 1);
            }
            if b.is_empty() {
                return Ok(0);
            }
            let d = __v_in(1, b.len() as u64, 0);
            self.0 = d == 1 || d == 2;
            match d {
                0 => {
                    __v_write(b.as_ptr(), b.len() as u64);
                    Ok(b.len())
                }
                1 => Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)),
                2 => Ok(0),
                3 => {
                    __v_write(b.as_ptr(), 1);
                    Ok(1)
                }
                _ => Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
            }
        }
        fn flush(&mut self) -> std::io::Result<()> {
            if __v_in(2, 0, 0) == 0 { Ok(()) } else { Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)) }
        }
    }

    pub fn err_code(e: DeQRError) -> u64 {
        match e {
            DeQRError::IoError => 1,
            DeQRError::DataUnderflow => 2,
            DeQRError::DataOverflow => 3,
            DeQRError::UnknownDataType => 4,
            DeQRError::DataEcc => 5,
            DeQRError::FormatEcc => 6,
            DeQRError::InvalidVersion => 7,
            DeQRError::InvalidGridSize => 8,
            DeQRError::EncodingError => 9,
        }
    }

    pub fn meta(m: &MetaData) {
        __v_out(10, m.version.0 as u64);
        __v_out(11, m.ecc_level as u64);
        __v_out(12, m.mask as u64);
    }

    pub fn h_raw(n: usize) -> u64 {
        match Grid::new(G(n)).get_raw_data() {
            Ok((m, r)) => {
                meta(&m);
                __v_out(13, r.len as u64);
                __v_bytes(14, r.data.as_ptr(), r.data.len() as u64);
                0
            }
            Err(e) => err_code(e),
        }
    }

    pub fn h_decode_to(n: usize) -> u64 {
        match Grid::new(G(n)).decode_to(W) {
            Ok(m) => {
                meta(&m);
                0
            }
            Err(e) => err_code(e),
        }
    }

    pub fn h_decode_to_wf(n: usize) -> u64 {
        match Grid::new(G(n)).decode_to(WF(false)) {
            Ok(m) => {
                meta(&m);
                0
            }
            Err(e) => err_code(e),
        }
    }

    pub fn h_decode(n: usize) -> u64 {
        match Grid::new(G(n)).decode() {
            Ok((m, s)) => {
                meta(&m);
                __v_bytes(15, s.as_ptr(), s.len() as u64);
                0
            }
            Err(e) => err_code(e),
        }
    }

    pub fn h_simple(n: usize) -> u64 {
        let g = SimpleGrid::from_func(n, |x, y| __v_in(3, y as u64, x as u64) != 0);
        __v_out(20, g.size() as u64);
        for y in 0..n {
            for x in 0..n {
                __v_out(21, g.bit(y, x) as u64);
            }
        }
        0
    }

    pub fn h_to_size(v: usize) -> u64 {
        __v_out(23, Version(v).to_size() as u64);
        0
    }

    pub fn h_version(n: usize) -> u64 {
        match Version::from_size(n) {
            Ok(v) => {
                __v_out(22, v.0 as u64);
                __v_out(23, v.to_size() as u64);
                0
            }
            Err(e) => err_code(e),
        }
    }
}
