pub mod binary;
pub mod path;
#[cfg(feature = "helpers")]
pub mod helpers;
pub mod sparse;
pub mod spec;
pub mod store;
pub mod storage;
pub mod sum;
pub mod vp;
