
#[allow(dead_code, unused, missing_docs, clippy::all)]
pub mod __vp {
    use super::*;
    use super::__v::*;
    pub fn h_unmasked(n: usize) -> u64 {
        match decode::get_raw(&G(n), true) {
            Ok((m, r)) => {
                meta(&m);
                __v_out(13, r.len as u64);
                __v_bytes(14, r.data.as_ptr(), r.data.len() as u64);
                0
            }
            Err(e) => err_code(e),
        }
    }
}
