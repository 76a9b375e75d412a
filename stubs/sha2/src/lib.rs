#![no_std]
extern crate alloc;
pub use digest::{self, Digest};
use alloc::vec::Vec;
use digest::{
    consts::{U32, U64},
    core_api::BlockSizeUser,
    FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
};

extern "C" {
    fn vp_hash(p: *const u8, n: u64, out: *mut u8);
}

#[derive(Clone, Default)]
pub struct Sha256 {
    buf: Vec<u8>,
}

impl core::fmt::Debug for Sha256 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Sha256 { ... }")
    }
}

impl OutputSizeUser for Sha256 {
    type OutputSize = U32;
}
impl BlockSizeUser for Sha256 {
    type BlockSize = U64;
}
impl HashMarker for Sha256 {}
impl Update for Sha256 {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
}
impl Reset for Sha256 {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl FixedOutput for Sha256 {
    fn finalize_into(self, out: &mut Output<Self>) {
        unsafe { vp_hash(self.buf.as_ptr(), self.buf.len() as u64, out.as_mut_ptr()) }
    }
}
impl FixedOutputReset for Sha256 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        unsafe { vp_hash(self.buf.as_ptr(), self.buf.len() as u64, out.as_mut_ptr()) };
        self.buf.clear();
    }
}
