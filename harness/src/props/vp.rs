//! Interface between the property harnesses and whoever runs them: the symbolic engine
//! (inputs are solver variables, checks are solver queries) or the native replayer
//! (inputs come from a model file, checks are plain comparisons).
#![allow(dead_code)]
extern "C" {
    fn vp_sym(tag: u32, p: *mut u8, n: u64);
    fn vp_choose(tag: u32, n: u64) -> u64;
    fn vp_mark(tag: u32, v: u64);
    fn vp_formatter() -> *mut core::fmt::Formatter<'static>;
    fn vp_param(i: u64) -> u64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, id: *const u8, n: u64);
    fn vp_assert_eq(p: *const u8, q: *const u8, n: u64, id: *const u8, idn: u64);
    fn vp_eq(p: *const u8, q: *const u8, n: u64) -> bool;
    fn vp_find(base: *const *const u8, count: u64, key: *const u8, n: u64) -> i64;
    fn vp_hash(p: *const u8, n: u64, out: *mut u8);
    fn vp_observe(tag: *const u8, tn: u64, p: *const u8, n: u64);
    fn vp_cover(id: *const u8, n: u64);
}

/// `n` unconstrained bytes.
pub fn fill(tag: u32, buf: &mut [u8]) {
    unsafe { vp_sym(tag, buf.as_mut_ptr(), buf.len() as u64) }
}
pub fn sym<const N: usize>(tag: u32) -> [u8; N] {
    let mut b = [0u8; N];
    fill(tag, &mut b);
    b
}
pub fn sym_u64(tag: u32) -> u64 {
    u64::from_le_bytes(sym::<8>(tag))
}
pub fn sym_bool(tag: u32) -> bool {
    sym::<1>(tag)[0] & 1 == 1
}
pub fn bytes(tag: u32, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(tag, &mut v);
    v
}
/// A value below `n`; every value is explored.
pub fn choose(tag: u32, n: u64) -> u64 {
    unsafe { vp_choose(tag, n) }
}
/// Keeps the paths that come by here with different values apart.
pub fn mark(tag: u32, v: u64) {
    unsafe { vp_mark(tag, v) }
}
/// A bound of this job.
pub fn param(i: u64) -> u64 {
    unsafe { vp_param(i) }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn check(c: bool, id: &str) {
    unsafe { vp_assert(c, id.as_ptr(), id.len() as u64) }
}
pub fn check_eq(p: &[u8], q: &[u8], id: &str) {
    if p.len() != q.len() {
        check(false, id);
        return;
    }
    unsafe { vp_assert_eq(p.as_ptr(), q.as_ptr(), p.len() as u64, id.as_ptr(), id.len() as u64) }
}
pub fn check_u64(a: u64, b: u64, id: &str) {
    check_eq(&a.to_le_bytes(), &b.to_le_bytes(), id)
}
/// Equality as a value (does not split the path).
pub fn eq(p: &[u8], q: &[u8]) -> bool {
    p.len() == q.len() && unsafe { vp_eq(p.as_ptr(), q.as_ptr(), p.len() as u64) }
}
/// Index of the last of the `count` records pointed to from `base` that starts with `key`, or -1.
pub unsafe fn find(base: *const *const u8, count: usize, key: &[u8]) -> i64 {
    vp_find(base, count as u64, key.as_ptr(), key.len() as u64)
}
/// SHA-256.
pub fn hash(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { vp_hash(b.as_ptr(), b.len() as u64, o.as_mut_ptr()) };
    o
}
pub fn hash_cat(parts: &[&[u8]]) -> [u8; 32] {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    hash(&v)
}
/// Records a value so that the native run of a sample can be compared with the encoding.
pub fn observe(tag: &str, b: &[u8]) {
    unsafe { vp_observe(tag.as_ptr(), tag.len() as u64, b.as_ptr(), b.len() as u64) }
}
/// Reachability witness.
pub fn cover(id: &str) {
    unsafe { vp_cover(id.as_ptr(), id.len() as u64) }
}

/// Formats a value for what its parts do when they are formatted; nothing is written.
pub fn walk<E: core::fmt::Debug>(e: &E) {
    unsafe {
        let p = vp_formatter();
        if p.is_null() {
            let _ = format!("{:?}", e);
        } else {
            let _ = core::fmt::Debug::fmt(e, &mut *p);
        }
    }
}
