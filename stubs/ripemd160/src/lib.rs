//! Analysis stand-in for the `ripemd160` crate: the hash is an uninterpreted
//! function of (algorithm, message), supplied by the symbolic executor.
pub use digest::{self, Digest};
use digest::consts::U20;
use digest::generic_array::GenericArray;
use digest::{FixedOutputDirty, Reset, Update};

extern "C" {
    fn __sym_hash(algo: u64, msg: *const u8, len: u64, out: *mut u8, outlen: u64);
}

#[derive(Clone, Default)]
pub struct Ripemd160(Vec<u8>);

impl Update for Ripemd160 {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref())
    }
}
impl FixedOutputDirty for Ripemd160 {
    type OutputSize = U20;
    fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, U20>) {
        unsafe { __sym_hash(3, self.0.as_ptr(), self.0.len() as u64, out.as_mut_ptr(), 20) }
    }
}
impl Reset for Ripemd160 {
    fn reset(&mut self) {
        self.0.clear()
    }
}
