//! Analysis stand-in for the `sha2` crate: the hash is an uninterpreted
//! function of (algorithm, message), supplied by the symbolic executor.
pub use digest::{self, Digest};
use digest::consts::U32;
use digest::generic_array::GenericArray;
use digest::{FixedOutputDirty, Reset, Update};

extern "C" {
    fn __sym_hash(algo: u64, msg: *const u8, len: u64, out: *mut u8, outlen: u64);
}

#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);

impl Update for Sha256 {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref())
    }
}
impl FixedOutputDirty for Sha256 {
    type OutputSize = U32;
    fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, U32>) {
        unsafe { __sym_hash(2, self.0.as_ptr(), self.0.len() as u64, out.as_mut_ptr(), 32) }
    }
}
impl Reset for Sha256 {
    fn reset(&mut self) {
        self.0.clear()
    }
}
