//! Independent specifications.
use super::vp;

pub type H32 = [u8; 32];
pub const EMPTY: H32 = [
    0xe3, 0xb0, 0xc4, 0x42, 0x98, 0xfc, 0x1c, 0x14, 0x9a, 0xfb, 0xf4, 0xc8, 0x99, 0x6f, 0xb9, 0x24, 0x27, 0xae, 0x41,
    0xe4, 0x64, 0x9b, 0x93, 0x4c, 0xa4, 0x95, 0x99, 0x1b, 0x78, 0x52, 0xb8, 0x55,
];

pub fn leaf_hash(d: &[u8]) -> H32 {
    vp::hash_cat(&[&[0], d])
}
pub fn node_hash(l: &H32, r: &H32) -> H32 {
    let mut b = [1u8; 65];
    b[1..33].copy_from_slice(l);
    b[33..].copy_from_slice(r);
    vp::hash(&b)
}
/// Largest power of two below n (n >= 2).
pub fn split(n: usize) -> usize {
    let mut k = 1;
    while k * 2 < n {
        k *= 2;
    }
    k
}
/// RFC 6962 Merkle tree hash, from leaf hashes.
pub fn mth(l: &[H32]) -> H32 {
    match l.len() {
        0 => EMPTY,
        1 => l[0],
        n => {
            let k = split(n);
            node_hash(&mth(&l[..k]), &mth(&l[k..]))
        }
    }
}
/// RFC 6962 audit path, leaf to root.
pub fn audit(l: &[H32], m: usize) -> Vec<H32> {
    if l.len() <= 1 {
        return Vec::new();
    }
    let k = split(l.len());
    let (mut p, s) = if m < k { (audit(&l[..k], m), mth(&l[k..])) } else { (audit(&l[k..], m - k), mth(&l[..k])) };
    p.push(s);
    p
}

/// Length of leaf `i` under length pattern `pat` (from 100000 on: all different).
pub fn leaf_len(i: u64, pat: u64) -> usize {
    const L: [usize; 12] = [0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 128, 200];
    match pat {
        0 => 1,
        1 => L[(i % 12) as usize],
        2 => 64,
        3 => 32,
        p if p >= 100000 => p as usize - 100000 + i as usize,
        p => (p - 4) as usize,
    }
}
pub fn leaf_data(i: u64, pat: u64) -> Vec<u8> {
    vp::bytes(1000 + i as u32, leaf_len(i, pat))
}
