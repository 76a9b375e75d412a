//! The test helpers: proof verifier and reference tree.
use super::spec::*;
use super::store::*;
use super::vp;
use fuel_merkle::binary::{self, Primitive};
use fuel_merkle_test_helpers::binary as helper;
use fuel_storage::Mappable;

struct T;
impl Mappable for T {
    type Key = u64;
    type SetValue = Primitive;
    type GetValue = Primitive;
}
type Tree = binary::MerkleTree<T, Handle<T, u64, Primitive>>;

/// T01: n, index, length pattern.
#[no_mangle]
pub extern "C" fn h_t01() {
    let n = vp::param(0);
    let pat = vp::param(1);
    let mut s = Store::<u64, Primitive>::new();
    let mut t = Tree::new(s.handle());
    for i in 0..n {
        t.push(&leaf_data(i, pat)).unwrap();
    }
    let empty: Vec<H32> = Vec::new();
    for i in vp::param(2)..=vp::param(3) {
        let (root, set) = t.prove(i).unwrap();
        vp::check(helper::verify(&root, &set, i, n), "T01.accepts");
        let other = vp::sym::<32>(1);
        vp::check(!helper::verify(&other, &set, i, n) | vp::eq(&other, &root), "T01.root");
        for j in 0..set.len() {
            let mut bad = set.clone();
            bad[j] = other;
            vp::check(!helper::verify(&root, &bad, i, n) | vp::eq(&other, &set[j]), "T01.element");
        }
        vp::check(!helper::verify(&other, &empty, i, n), "T01.empty");
        let k = vp::sym_u64(2);
        vp::assume(k >= n);
        vp::check(!helper::verify(&root, &set, k, n), "T01.index");
        vp::observe("root", &root);
    }
    vp::check(!helper::verify(&vp::sym(1), &empty, 0, 0), "T01.no-leaves");
    vp::check(!helper::verify(&vp::sym(1), &vec![vp::sym(3)], vp::sym_u64(4), 0), "T01.no-leaves");
    vp::cover("end");
}

/// Number of elements of the honest proof of leaf `i` of `n`.
fn len(n: u64, i: u64) -> usize {
    let (mut f, mut s, mut c) = (i, n - 1, 1);
    while s > 0 {
        if f & 1 == 1 || f != s {
            c += 1;
        }
        f >>= 1;
        s >>= 1;
    }
    c
}
/// RFC 9162 2.1.3.2.
fn fold(i: u64, n: u64, p: &[H32]) -> H32 {
    let (mut f, mut s, mut r) = (i, n - 1, p[0]);
    for x in &p[1..] {
        if f & 1 == 1 || f == s {
            r = node_hash(x, &r);
            while f & 1 == 0 && f != 0 {
                f >>= 1;
                s >>= 1;
            }
        } else {
            r = node_hash(&r, x);
        }
        f >>= 1;
        s >>= 1;
    }
    r
}
/// T01 for large counts: leaf count and index fixed except for a window each; the proof elements
/// are unconstrained, the root is the one they lead to.
#[no_mangle]
pub extern "C" fn h_t01_large() {
    let n = vp::param(0) + vp::choose(1, vp::param(1));
    let x = vp::param(2) + vp::choose(2, vp::param(3));
    let i = if vp::param(4) == 1 { (n - 1).wrapping_sub(x) } else { x };
    if i >= n {
        return;
    }
    let mut p: Vec<H32> = Vec::new();
    for j in 0..len(n, i) {
        p.push(vp::sym(100 + j as u32));
    }
    let root = fold(i, n, &p);
    vp::check(helper::verify(&root, &p, i, n), "T01.accepts");
    let other = vp::sym::<32>(1);
    vp::check(!helper::verify(&other, &p, i, n) | vp::eq(&other, &root), "T01.root");
    let j = vp::choose(3, vp::param(5).min(p.len() as u64)) as usize;
    let j = if j & 1 == 0 { j / 2 } else { p.len() - 1 - j / 2 };
    let mut bad = p.clone();
    bad[j] = other;
    vp::check(!helper::verify(&root, &bad, i, n) | vp::eq(&other, &p[j]), "T01.element");
    vp::observe("root", &root);
    vp::cover("end");
}

/// T02: n, pattern, first and last index.
#[no_mangle]
pub extern "C" fn h_t02() {
    let n = vp::param(0);
    let pat = vp::param(1);
    let d: Vec<Vec<u8>> = (0..n).map(|i| leaf_data(i, pat)).collect();
    let mut s = Store::<u64, Primitive>::new();
    let mut t = Tree::new(s.handle());
    for x in &d {
        t.push(x).unwrap();
    }
    let mut lh = Vec::new();
    for i in vp::param(2)..=vp::param(3) {
        let mut r = helper::MerkleTree::new();
        r.set_proof_index(i);
        lh.clear();
        vp::check_eq(&r.root(), &EMPTY, "T02.empty");
        for x in &d {
            r.push(x);
            lh.push(leaf_hash(x));
            vp::check_eq(&r.root(), &mth(&lh), "T02.root-spec");
        }
        vp::check_u64(r.leaves_count(), n, "T02.count");
        vp::check_eq(&r.root(), &t.root(), "T02.root");
        let (root, set) = r.prove();
        vp::check_eq(&root, &t.root(), "T02.root");
        if i < n {
            let (_, want) = t.prove(i).unwrap();
            vp::check_u64(set.len() as u64, want.len() as u64, "T02.proof");
            for (a, b) in set.iter().zip(&want) {
                vp::check_eq(a, b, "T02.proof");
            }
        } else {
            vp::check(set.is_empty(), "T02.none");
        }
        vp::observe("root", &root);
    }
    vp::cover("end");
}
/// T02 with a symbolic proof index: n, pattern.
#[no_mangle]
pub extern "C" fn h_t02_sym() {
    let n = vp::param(0);
    let pat = vp::param(1);
    let i = vp::sym_u64(7);
    let mut r = helper::MerkleTree::new();
    r.set_proof_index(i);
    let mut lh = Vec::new();
    for j in 0..n {
        let x = leaf_data(j, pat);
        r.push(&x);
        lh.push(leaf_hash(&x));
    }
    let (root, set) = r.prove();
    vp::check_eq(&root, &mth(&lh), "T02.root");
    let mut hit = false;
    for k in 0..n {
        if i == k {
            hit = true;
            let mut want = vec![lh[k as usize]];
            want.extend(audit(&lh, k as usize));
            vp::check_u64(set.len() as u64, want.len() as u64, "T02.proof");
            for (a, b) in set.iter().zip(&want) {
                vp::check_eq(a, b, "T02.proof");
            }
        }
    }
    if !hit {
        vp::check(i >= n && set.is_empty(), "T02.none");
    }
    vp::observe("root", &root);
    vp::cover("end");
}
