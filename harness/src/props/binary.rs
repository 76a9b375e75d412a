//! Binary Merkle tree.
use super::spec::*;
use super::store::*;
use super::vp;
use fuel_merkle::binary::{self, in_memory, MerkleTreeError, Primitive};
use fuel_merkle::common::{Bytes32, Position};
use fuel_storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;

pub struct T;
impl Mappable for T {
    type Key = u64;
    type SetValue = Primitive;
    type GetValue = Primitive;
}
pub type St = Store<u64, Primitive>;
pub type H = Handle<T, u64, Primitive>;
pub type Tree = binary::MerkleTree<T, H>;
type Res<X> = Result<X, MerkleTreeError<Fault>>;

/// Leaves `from..to` under a length pattern.
fn leaves(from: u64, to: u64, pat: u64) -> Vec<Vec<u8>> {
    (from..to).map(|i| leaf_data(i, pat)).collect()
}
fn hashes(d: &[Vec<u8>]) -> Vec<H32> {
    d.iter().map(|d| leaf_hash(d)).collect()
}
/// A tree over a fresh store, with the given leaves.
fn grow(s: &mut St, d: &[Vec<u8>]) -> Tree {
    let mut t = Tree::new(s.handle());
    for x in d {
        t.push(x).unwrap();
    }
    t
}
/// The honest answer to a proof request.
fn expect(lh: &[H32], i: usize) -> (H32, Vec<H32>) {
    let mut p = vec![lh[i]];
    p.extend(audit(lh, i));
    (mth(lh), p)
}
fn same(r: &(Bytes32, Vec<Bytes32>), e: &(H32, Vec<H32>), id: &str) {
    vp::check_eq(&r.0, &e.0, id);
    vp::check_u64(r.1.len() as u64, e.1.len() as u64, id);
    for (a, b) in r.1.iter().zip(&e.1) {
        vp::check_eq(a, b, id);
    }
}
fn proof_ok(r: Res<(Bytes32, Vec<Bytes32>)>, lh: &[H32], i: usize, id: &str) {
    match r {
        Ok(p) => same(&p, &expect(lh, i), id),
        Err(_) => vp::check(false, id),
    }
}
fn refused(t: &Tree, i: u64, id: &str) {
    match t.prove(i) {
        Err(MerkleTreeError::InvalidProofIndex(j)) => vp::check_u64(j, i, id),
        _ => vp::check(false, id),
    }
}
/// RFC 9162 2.1.3.2: the root that a proof of leaf `i` of `n` leads to (None when it is malformed).
fn fold(i: u64, n: u64, leaf: &H32, path: &[H32]) -> Option<H32> {
    if i >= n {
        return None;
    }
    let (mut f, mut s, mut r) = (i, n - 1, *leaf);
    for p in path {
        if s == 0 {
            return None;
        }
        if f & 1 == 1 || f == s {
            r = node_hash(p, &r);
            if f & 1 == 0 {
                while f & 1 == 0 && f != 0 {
                    f >>= 1;
                    s >>= 1;
                }
            }
        } else {
            r = node_hash(&r, p);
        }
        f >>= 1;
        s >>= 1;
    }
    if s == 0 {
        Some(r)
    } else {
        None
    }
}

/// The tree is the one over `lh`: root, every proof, and the leaf count.
fn is_tree(t: &Tree, lh: &[H32], id: &str) {
    vp::check_eq(&t.root(), &mth(lh), id);
    for i in 0..lh.len() {
        proof_ok(t.prove(i as u64), lh, i, id);
    }
    refused(t, lh.len() as u64, id);
}

/// Complete aligned subtrees of `n` leaves: (start, height).
fn complete(n: u64) -> Vec<(u64, u32)> {
    let mut v = Vec::new();
    let mut h = 0;
    while 1u64 << h <= n {
        for j in 0..n >> h {
            v.push((j << h, h));
        }
        h += 1;
    }
    v
}
fn top(start: u64, h: u32) -> u64 {
    2 * start + (1u64 << h) - 1
}
/// Maximal complete subtrees, left to right.
fn peaks(n: u64) -> Vec<(u64, u32)> {
    let mut v = Vec::new();
    let mut at = 0;
    for h in (0..63).rev() {
        if n >> h & 1 == 1 {
            v.push((at, h));
            at += 1 << h;
        }
    }
    v
}
fn record_is(s: &St, lh: &[H32], start: u64, h: u32, id: &str) {
    let k = top(start, h);
    match s.get(&k) {
        None => vp::check(false, id),
        Some((i, x)) => {
            vp::check_u64(i, k, id);
            vp::check_eq(&x, &mth(&lh[start as usize..(start + (1 << h)) as usize]), id);
        }
    }
}
fn live(s: &St) -> u64 {
    s.recs.iter().filter(|r| r.key[8] == 1).count() as u64
}

/// B01: param 0 = number of leaves, param 1 = length pattern.
#[no_mangle]
pub extern "C" fn h_b01() {
    let n = vp::param(0);
    let pat = vp::param(1);
    let mut s1 = St::new();
    let mut s2 = St::new();
    let mut read = Tree::new(s1.handle());
    let mut quiet = Tree::new(s2.handle());
    let mut lh = Vec::new();
    vp::check_eq(&read.root(), &mth(&lh), "B01.empty");
    for i in 0..n {
        let d = leaf_data(i, pat);
        lh.push(leaf_hash(&d));
        read.push(&d).unwrap();
        quiet.push(&d).unwrap();
        let r = read.root();
        vp::check_eq(&r, &mth(&lh), "B01.root");
        vp::check_eq(&read.root(), &r, "B01.root-again");
    }
    let r = quiet.root();
    vp::check_eq(&r, &mth(&lh), "B01.root-unread");
    vp::observe("root", &r);
    vp::cover("end");
}

/// B01 with every combination of leaf lengths: n, then the number of lengths and the lengths.
#[no_mangle]
pub extern "C" fn h_b01_len() {
    let n = vp::param(0);
    let c = vp::param(1);
    let mut s = St::new();
    let mut t = Tree::new(s.handle());
    let mut lh = Vec::new();
    for i in 0..n {
        let l = vp::param(2 + vp::choose(10 + i as u32, c));
        let d = vp::bytes(1000 + i as u32, l as usize);
        lh.push(leaf_hash(&d));
        t.push(&d).unwrap();
        vp::check_eq(&t.root(), &mth(&lh), "B01.root-len");
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// B02: n, pattern, mode (0: every index in turn; 1: one symbolic index).
#[no_mangle]
pub extern "C" fn h_b02() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1));
    let lh = hashes(&d);
    let mut s = St::new();
    let t = grow(&mut s, &d);
    let root = t.root();
    let (from, to) = if vp::param(2) == 0 {
        (0, n)
    } else {
        let i = vp::sym_u64(1);
        vp::assume(i < n);
        match t.prove(i) {
            Ok(p) => {
                // the answer for a symbolic index, compared with the honest one for that index
                let mut ok = false;
                for k in 0..n {
                    if i == k {
                        same(&p, &expect(&lh, k as usize), "B02.proof-sym");
                        ok = true;
                    }
                }
                vp::check(ok, "B02.proof-sym");
            }
            Err(_) => vp::check(false, "B02.complete"),
        }
        vp::cover("end");
        return;
    };
    for i in from..to {
        match t.prove(i) {
            Ok(p) => {
                same(&p, &expect(&lh, i as usize), "B02.proof");
                vp::check_eq(&p.0, &root, "B02.root");
                match fold(i, n, &p.1[0], &p.1[1..]) {
                    Some(r) => vp::check_eq(&r, &p.0, "B02.fold"),
                    None => vp::check(false, "B02.fold"),
                }
                if i == n / 2 {
                    for x in &p.1 {
                        vp::observe("proof", x);
                    }
                }
            }
            Err(_) => vp::check(false, "B02.complete"),
        }
    }
    vp::check_eq(&t.root(), &root, "B02.root-after");
    vp::cover("end");
}

/// B03: n, pattern.
#[no_mangle]
pub extern "C" fn h_b03() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1));
    let lh = hashes(&d);
    let mut s = St::new();
    let t = grow(&mut s, &d);
    let (writes, removes) = (s.writes, s.removes);
    let i = vp::sym_u64(1);
    vp::assume(i >= n);
    refused(&t, i, "B03.refused");
    vp::check(s.writes == writes && s.removes == removes, "B03.writes");
    is_tree(&t, &lh, "B03.unchanged");
    let mut m = in_memory::MerkleTree::new();
    for x in &d {
        m.push(x);
    }
    vp::check(m.prove(i).is_none(), "B03.in-memory");
    vp::check_eq(&m.root(), &mth(&lh), "B03.in-memory-unchanged");
    vp::observe("index", &i.to_le_bytes());
    vp::cover("end");
}

/// B04: n, leaves pushed after loading, pattern, smallest and largest k.
#[no_mangle]
pub extern "C" fn h_b04() {
    let n = vp::param(0);
    let m = vp::param(1);
    let pat = vp::param(2);
    let d = leaves(0, n, pat);
    let more = leaves(n, n + m, pat);
    let lh = hashes(&d);
    let mh = hashes(&more);
    let mut s = St::new();
    grow(&mut s, &d);
    for k in vp::param(3)..=vp::param(4) {
        let mut s = s.clone_box();
        let mut t = match Tree::load(s.handle(), k) {
            Ok(t) => t,
            Err(_) => {
                vp::check(false, "B04.load");
                continue;
            }
        };
        let mut now = lh[..k as usize].to_vec();
        is_tree(&t, &now, "B04.loaded");
        for j in 0..m {
            if t.push(&more[j as usize]).is_err() {
                vp::check(false, "B04.push");
                break;
            }
            now.push(mh[j as usize]);
            vp::check_eq(&t.root(), &mth(&now), "B04.root");
        }
        is_tree(&t, &now, "B04.pushed");
        for (a, h) in complete(now.len() as u64) {
            record_is(&s, &now, a, h, "B04.records");
        }
        if k == n {
            vp::check_u64(live(&s), complete(now.len() as u64).len() as u64, "B04.exact");
        }
        vp::observe("root", &t.root());
    }
    vp::cover("end");
}

/// B05: n, pattern, check earlier records after every push (1) or at the end (0).
#[no_mangle]
pub extern "C" fn h_b05() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1));
    let each = vp::param(2) == 1;
    let lh = hashes(&d);
    let mut s = St::new();
    let mut t = Tree::new(s.handle());
    for i in 0..n {
        t.push(&d[i as usize]).unwrap();
        let c = complete(i + 1);
        vp::check_u64(live(&s), c.len() as u64, "B05.count");
        if each || i + 1 == n {
            for (a, h) in c {
                record_is(&s, &lh[..=i as usize], a, h, "B05.record");
            }
        }
    }
    let (w, r) = (s.writes, s.removes);
    let _ = t.root();
    for i in 0..n {
        let _ = t.prove(i);
    }
    vp::check(s.writes == w && s.removes == r, "B05.read-only");
    let i = vp::sym_u64(1);
    vp::assume(i >= n);
    let _ = t.prove(i);
    vp::check(s.writes == w && s.removes == r, "B05.read-only");
    if let Some(r) = s.recs.last() {
        vp::observe("last", &r.val.1);
    }
    vp::cover("end");
}

/// Makes the presence of every record symbolic; returns the presence flags by record.
fn blur(s: &mut St) -> Vec<bool> {
    let mut v = Vec::new();
    for (i, r) in s.recs.iter_mut().enumerate() {
        let p = vp::sym_bool(500 + i as u32);
        r.key[8] = p as u8;
        v.push(p);
    }
    v
}
fn flag(keys: &[u64], f: &[bool], k: u64) -> bool {
    f[keys.iter().position(|x| *x == k).unwrap()]
}

/// B06 for load: n (stored), k (loaded), pattern.
#[no_mangle]
pub extern "C" fn h_b06_load() {
    let n = vp::param(0);
    let k = vp::param(1);
    let d = leaves(0, n, vp::param(2));
    let lh = hashes(&d);
    let mut s = St::new();
    grow(&mut s, &d);
    let keys: Vec<u64> = s.recs.iter().map(|r| u64::of(&r.key)).collect();
    let f = blur(&mut s);
    let w = s.writes;
    let mut all = true;
    for (a, h) in peaks(k) {
        all &= flag(&keys, &f, top(a, h));
    }
    match Tree::load(s.handle(), k) {
        Ok(t) => {
            vp::check(all, "B06.load-missing");
            vp::check_eq(&t.root(), &mth(&lh[..k as usize]), "B06.load-root");
            vp::cover("loaded");
        }
        Err(MerkleTreeError::LoadError(_)) => {
            vp::check(!all, "B06.load-spurious");
            vp::cover("refused");
        }
        Err(_) => vp::check(false, "B06.load-error"),
    }
    vp::check(s.writes == w, "B06.load-writes");
    vp::cover("end");
}

/// B06 for prove: n, pattern, index range, 1 to load the tree before proving.
#[no_mangle]
pub extern "C" fn h_b06_prove() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1));
    let lh = hashes(&d);
    let mut s = St::new();
    let mut t = grow(&mut s, &d);
    if vp::param(4) == 1 {
        t = Tree::load(s.handle(), n).unwrap();
    }
    let keys: Vec<u64> = s.recs.iter().map(|r| u64::of(&r.key)).collect();
    let f = blur(&mut s);
    let pk = peaks(n);
    for i in vp::param(2)..=vp::param(3) {
        // stored nodes of the proof: those below a peak must be read, peaks may be at hand already
        let mut strict = true;
        let mut all = true;
        for &(a, h) in &pk {
            let p = flag(&keys, &f, top(a, h));
            all &= p;
            if a <= i && i < a + (1 << h) {
                for g in 0..h {
                    strict &= flag(&keys, &f, top((i >> g ^ 1) << g, g));
                }
                if h > 0 {
                    strict &= flag(&keys, &f, 2 * i);
                }
            }
        }
        all &= strict;
        match t.prove(i) {
            Ok(p) => {
                vp::check(strict, "B06.prove-missing");
                same(&p, &expect(&lh, i as usize), "B06.prove-result");
                vp::cover("proved");
            }
            Err(MerkleTreeError::LoadError(_)) => {
                vp::check(!all, "B06.prove-spurious");
                vp::cover("refused");
            }
            Err(_) => vp::check(false, "B06.prove-error"),
        }
        vp::check_eq(&t.root(), &mth(&lh), "B06.root");
    }
    vp::cover("end");
}

/// E01 for binary trees: n (stored), k (loaded), pattern, first index, last index. Any records are absent and any read fails.
#[no_mangle]
pub extern "C" fn h_e01_bin() {
    let n = vp::param(0);
    let k = vp::param(1);
    let d = leaves(0, n, vp::param(2));
    let mut s = St::new();
    grow(&mut s, &d);
    let keys: Vec<u64> = s.recs.iter().map(|r| u64::of(&r.key)).collect();
    let f = blur(&mut s);
    let pk: Vec<u64> = peaks(k).iter().map(|&(a, h)| top(a, h)).collect();
    let x = vp::sym_u64(10);
    vp::assume(x < 100000);
    s.fail_at = s.ops + x;
    s.failed = false;
    let t = match Tree::load(s.handle(), k) {
        Ok(t) => {
            vp::check(!s.failed, "E01.load-swallowed");
            t
        }
        Err(MerkleTreeError::LoadError(y)) => {
            vp::check(!s.failed && pk.contains(&y) && !flag(&keys, &f, y), "E01.load-key");
            vp::cover("absent");
            return;
        }
        Err(MerkleTreeError::StorageError(Fault(y))) => {
            vp::check(s.failed, "E01.load-fault");
            vp::check_u64(y, s.fail_at, "E01.load-fault");
            vp::cover("fault");
            return;
        }
        Err(_) => {
            vp::check(false, "E01.load-error");
            return;
        }
    };
    let root = t.root();
    {
        let i = vp::param(3) + vp::choose(2, vp::param(4) + 1 - vp::param(3));
        let x = vp::sym_u64(11);
        vp::assume(x < 100000);
        s.fail_at = s.ops + x;
        s.failed = false;
        let r = t.prove(i);
        let at = s.fail_at;
        s.fail_at = u64::MAX;
        match r {
            Ok(_) => {
                vp::check(!s.failed && i < k, "E01.prove-swallowed");
                vp::cover("proved");
            }
            Err(MerkleTreeError::LoadError(y)) => {
                let mut need = y == 2 * i || pk.contains(&y);
                for &(a, h) in &peaks(k) {
                    if a <= i && i < a + (1 << h) {
                        for g in 0..h {
                            need |= y == top((i >> g ^ 1) << g, g);
                        }
                    }
                }
                vp::check(need && i < k && !s.failed && !flag(&keys, &f, y), "E01.prove-key");
                vp::cover("no proof");
            }
            Err(MerkleTreeError::StorageError(Fault(y))) => {
                vp::check(s.failed, "E01.prove-fault");
                vp::check_u64(y, at, "E01.prove-fault");
                vp::cover("proof fault");
            }
            Err(MerkleTreeError::InvalidProofIndex(y)) => {
                vp::check(i >= k, "E01.prove-index");
                vp::check_u64(y, i, "E01.prove-index");
            }
        }
        vp::check_eq(&t.root(), &root, "E01.prove-root");
    }
    vp::observe("root", &root);
    vp::cover("end");
}
/// E01 at any size: count and index as for B10; one record is missing, or one read fails.
#[no_mangle]
pub extern "C" fn h_e01_virt() {
    let n = windowed(vp::param(0), vp::param(1), vp::param(2), 1);
    vp::assume(n >= 1 && n < 1 << 62);
    let mut log = Log::new();
    log.miss = vp::sym_u64(4);
    log.fail_at = vp::sym_u64(5);
    let p: *mut Log = &mut *log;
    let l = unsafe { &mut *p };
    let told = |e: MerkleTreeError<Fault>, id: &str| {
        match e {
            MerkleTreeError::LoadError(y) => {
                vp::check_u64(y, l.miss, id);
                vp::check(!l.failed(), id);
            }
            MerkleTreeError::StorageError(Fault(y)) => vp::check_u64(y, l.fail_at, id),
            _ => vp::check(false, id),
        }
    };
    let t = match binary::MerkleTree::<T, Virt>::load(Virt(p), n) {
        Ok(t) => t,
        Err(e) => {
            told(e, "E01.load");
            vp::cover("not loaded");
            return;
        }
    };
    vp::check(!l.failed(), "E01.load-swallowed");
    let i = place(n, vp::param(3), windowed(vp::param(4), vp::param(5), vp::param(6), 2));
    match t.prove(i) {
        Ok(_) => {
            vp::check(!l.failed() && i < n, "E01.prove-swallowed");
            vp::cover("proved");
        }
        Err(MerkleTreeError::InvalidProofIndex(y)) => {
            vp::check(i >= n, "E01.prove-index");
            vp::check_u64(y, i, "E01.prove-index");
        }
        Err(e) => {
            told(e, "E01.prove");
            vp::cover("not proved");
        }
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// B07: n, pattern, number of failing attempts.
#[no_mangle]
pub extern "C" fn h_b07() {
    let n = vp::param(0);
    let pat = vp::param(1);
    let d = leaves(0, n + 3, pat);
    let mut now = hashes(&d[..n as usize]);
    let mut s = St::new();
    let mut t = grow(&mut s, &d[..n as usize]);
    for a in 0..vp::param(2) {
        let f = vp::sym_u64(10 + a as u32);
        vp::assume(f < 70);
        s.fail_at = s.ops + f;
        s.failed = false;
        // a different leaf on every attempt
        let x = vp::bytes(40 + a as u32, 5);
        match t.push(&x) {
            Ok(()) => {
                vp::check(!s.failed, "B07.swallowed");
                now.push(leaf_hash(&x));
                vp::cover("pushed");
            }
            Err(MerkleTreeError::StorageError(Fault(k))) => {
                vp::check_u64(k, s.fail_at, "B07.error");
                vp::cover("failed");
            }
            Err(_) => vp::check(false, "B07.error"),
        }
        s.fail_at = u64::MAX;
        is_tree(&t, &now, "B07.unchanged");
    }
    for x in &d[n as usize..] {
        if t.push(x).is_err() {
            vp::check(false, "B07.retry");
        }
        now.push(leaf_hash(x));
        is_tree(&t, &now, "B07.retry");
    }
    for (a, h) in complete(now.len() as u64) {
        record_is(&s, &now, a, h, "B07.records");
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// B08: n, pattern.
#[no_mangle]
pub extern "C" fn h_b08() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1));
    let mut s = St::new();
    let mut t = Tree::new(s.handle());
    let mut m = in_memory::MerkleTree::new();
    vp::check_eq(&m.root(), &t.root(), "B08.root");
    for x in &d {
        t.push(x).unwrap();
        m.push(x);
        vp::check_eq(&m.root(), &t.root(), "B08.root");
    }
    for i in 0..n {
        match (m.prove(i), t.prove(i)) {
            (Some(a), Ok(b)) => same(&a, &b, "B08.proof"),
            _ => vp::check(false, "B08.proof"),
        }
    }
    let i = vp::sym_u64(1);
    let mut e = in_memory::MerkleTree::default();
    vp::check_eq(&e.root(), &EMPTY, "B08.default");
    vp::check(e.prove(i).is_none(), "B08.default");
    // the indices of leaves were looked at above
    vp::assume(i >= n);
    vp::check(m.prove(i).is_none(), "B08.none");
    vp::observe("root", &m.root());
    vp::cover("end");
}

/// B09: two trees whose leaf lengths are taken from the given list; counts n1, n2, then lengths.
#[no_mangle]
pub extern "C" fn h_b09() {
    let (n1, n2, c) = (vp::param(0), vp::param(1), vp::param(2));
    let mk = |n: u64, tag: u32| -> Vec<Vec<u8>> {
        (0..n)
            .map(|i| {
                let l = vp::param(3 + vp::choose(tag + i as u32, c));
                vp::bytes(1000 + tag + i as u32, l as usize)
            })
            .collect()
    };
    let a = mk(n1, 10);
    let b = mk(n2, 50);
    let (mut s1, mut s2) = (St::new(), St::new());
    let ra = grow(&mut s1, &a).root();
    let rb = grow(&mut s2, &b).root();
    let equal = vp::eq(&ra, &rb);
    let mut sames = n1 == n2;
    for (x, y) in a.iter().zip(&b) {
        sames &= vp::eq(x, y);
    }
    vp::check(!equal | sames, "B09.binding");
    vp::observe("a", &ra);
    vp::observe("b", &rb);
    vp::cover("end");
}

/// Storage of a tree of any size: every node is there, with a hash that names its position.
struct Virt(*mut Log);
struct Log {
    reads: Vec<u64>,
    writes: Vec<(u64, Primitive)>,
    /// Key of a record that is not there.
    miss: u64,
    /// Operations so far, and the one that fails.
    ops: u64,
    fail_at: u64,
}
impl Log {
    fn new() -> Box<Log> {
        Box::new(Log { reads: vec![], writes: vec![], miss: u64::MAX, ops: 0, fail_at: u64::MAX })
    }
    fn failed(&self) -> bool {
        self.ops > self.fail_at
    }
    fn op(&mut self) -> Result<(), Fault> {
        self.ops += 1;
        if self.ops - 1 == self.fail_at {
            vp::mark(700, self.ops - 1);
            return Err(Fault(self.fail_at));
        }
        Ok(())
    }
}
fn virt(k: u64) -> H32 {
    vp::hash_cat(&[b"virtual", &k.to_le_bytes()])
}
impl Virt {
    #[allow(clippy::mut_from_ref)]
    fn l(&self) -> &mut Log {
        unsafe { &mut *self.0 }
    }
    fn at(&self, k: u64) -> Primitive {
        for (w, p) in self.l().writes.iter().rev() {
            if *w == k {
                return *p;
            }
        }
        (k, virt(k))
    }
}
impl StorageInspect<T> for Virt {
    type Error = Fault;
    fn get(&self, k: &u64) -> Result<Option<Cow<'_, Primitive>>, Fault> {
        self.l().op()?;
        self.l().reads.push(*k);
        if *k == self.l().miss {
            return Ok(None);
        }
        Ok(Some(Cow::Owned(self.at(*k))))
    }
    fn contains_key(&self, k: &u64) -> Result<bool, Fault> {
        self.l().op()?;
        self.l().reads.push(*k);
        Ok(*k != self.l().miss)
    }
}
impl StorageMutate<T> for Virt {
    fn insert(&mut self, k: &u64, v: &Primitive) -> Result<Option<Primitive>, Fault> {
        self.l().op()?;
        self.l().writes.push((*k, *v));
        Ok(None)
    }
    fn remove(&mut self, k: &u64) -> Result<Option<Primitive>, Fault> {
        self.l().op()?;
        self.l().writes.push((*k, (u64::MAX, [0xff; 32])));
        Ok(None)
    }
}
/// Subtree hash of `n` leaves from `start`; `start..start+n` is a subtree of the RFC decomposition.
fn vmth(start: u64, n: u64) -> H32 {
    if n.is_power_of_two() {
        return virt(top(start, n.trailing_zeros()));
    }
    let k = 1u64 << (63 - n.leading_zeros());
    node_hash(&vmth(start, k), &vmth(start + k, n - k))
}
fn vaudit(start: u64, n: u64, m: u64, out: &mut Vec<H32>) {
    if n <= 1 {
        return;
    }
    let k = 1u64 << (63 - (n - 1).leading_zeros());
    if m < k {
        vaudit(start, k, m, out);
        out.push(vmth(start + k, n - k));
    } else {
        vaudit(start + k, n - k, m - k, out);
        out.push(vmth(start, k));
    }
}
/// A value whose bits are fixed except for a window of `w` bits from bit `lo`: the path is split on
/// the window, or, with w = 64, the value is one unconstrained variable.
fn windowed(base: u64, lo: u64, w: u64, tag: u32) -> u64 {
    if w == 64 {
        return vp::sym_u64(tag);
    }
    let m = ((1u64 << w) - 1) << lo;
    (base & !m) | (vp::choose(tag, 1 << w) << lo)
}

/// B10: count (base, window position and width), then pairs for the index likewise, and pushes.
#[no_mangle]
pub extern "C" fn h_b10() {
    let n = windowed(vp::param(0), vp::param(1), vp::param(2), 1);
    vp::assume(n >= 1 && n < 1 << 62);
    let mut log = Log::new();
    let p: *mut Log = &mut *log;
    let mut t = match binary::MerkleTree::<T, Virt>::load(Virt(p), n) {
        Ok(t) => t,
        Err(_) => {
            vp::check(false, "B10.load");
            return;
        }
    };
    let l = unsafe { &mut *p };
    let mut want: Vec<u64> = peaks(n).iter().map(|&(a, h)| top(a, h)).collect();
    let mut got = l.reads.clone();
    want.sort();
    got.sort();
    got.dedup();
    vp::check(want == got, "B10.reads");
    let root = t.root();
    vp::check_eq(&root, &vmth(0, n), "B10.root");
    vp::observe("root", &root);
    let i = place(n, vp::param(3), windowed(vp::param(4), vp::param(5), vp::param(6), 2));
    match t.prove(i) {
        Ok(p) => {
            vp::check(i < n, "B10.range");
            let mut e = vec![virt(2 * i)];
            vaudit(0, n, i, &mut e);
            same(&p, &(root, e), "B10.proof");
            vp::cover("proved");
        }
        Err(MerkleTreeError::InvalidProofIndex(j)) => {
            vp::check(i >= n && j == i, "B10.range");
            vp::cover("out of range");
        }
        Err(_) => vp::check(false, "B10.prove"),
    }
    // pushing one more leaf joins exactly the peaks that become complete
    if vp::param(7) == 1 {
        let d = vp::bytes(3, 2);
        if t.push(&d).is_err() {
            vp::check(false, "B10.push");
            return;
        }
        pushed(l, &t, n, &d, true, "B10.push-writes");
    }
    vp::cover("end");
}
/// One leaf was pushed to the tree of `n` leaves (`done`), or that failed on the way.
fn pushed(l: &Log, t: &binary::MerkleTree<T, Virt>, n: u64, d: &[u8], done: bool, id: &str) {
    let mut x = leaf_hash(d);
    let mut recs = vec![(2 * n, x)];
    let mut rest: Vec<H32> = Vec::new();
    for (h, (a, g)) in peaks(n).into_iter().rev().enumerate() {
        if g == h as u32 && rest.is_empty() {
            x = node_hash(&virt(top(a, g)), &x);
            recs.push((top(a, g + 1), x));
        } else {
            rest.push(virt(top(a, g)));
        }
    }
    // nothing but the records of the new complete subtrees was written, and, when done, all of them
    let mut ok = true;
    for (w, p) in &l.writes {
        match recs.iter().find(|r| r.0 == *w) {
            None => ok = false,
            Some(r) => ok &= p.0 == *w && vp::eq(&p.1, &r.1),
        }
    }
    for r in &recs {
        ok &= !done || l.writes.iter().any(|w| w.0 == r.0);
    }
    vp::check(ok, id);
    if done {
        // the new complete subtree is the rightmost peak
        let mut r = x;
        for y in rest {
            r = node_hash(&y, &r);
        }
        vp::check_eq(&t.root(), &r, id);
        refusedv(t, n + 1);
    } else {
        vp::check_eq(&t.root(), &vmth(0, n), id);
        refusedv(t, n);
    }
}
/// B06 at any size: count and index as for B10; one record, with any key, is missing.
#[no_mangle]
pub extern "C" fn h_b06_virt() {
    let n = windowed(vp::param(0), vp::param(1), vp::param(2), 1);
    vp::assume(n >= 1 && n < 1 << 62);
    let mut log = Log::new();
    log.miss = vp::sym_u64(4);
    let p: *mut Log = &mut *log;
    let peak = |k: u64| peaks(n).iter().any(|&(a, h)| top(a, h) == k);
    let t = match binary::MerkleTree::<T, Virt>::load(Virt(p), n) {
        Ok(t) => t,
        Err(MerkleTreeError::LoadError(_)) => {
            vp::check(peak(log.miss), "B06.load-spurious");
            vp::cover("refused");
            return;
        }
        Err(_) => {
            vp::check(false, "B06.load-error");
            return;
        }
    };
    vp::check(!peak(unsafe { (*p).miss }), "B06.load-missing");
    vp::check_eq(&t.root(), &vmth(0, n), "B06.load-root");
    let i = place(n, vp::param(3), windowed(vp::param(4), vp::param(5), vp::param(6), 2));
    vp::assume(i < n);
    let mut need = false;
    for (a, h) in peaks(n) {
        if a <= i && i < a + (1 << h) && h > 0 {
            for g in 0..h {
                need |= unsafe { (*p).miss } == top((i >> g ^ 1) << g, g);
            }
            need |= unsafe { (*p).miss } == 2 * i;
        }
    }
    match t.prove(i) {
        Ok(p) => {
            vp::check(!need, "B06.prove-missing");
            let mut e = vec![virt(2 * i)];
            vaudit(0, n, i, &mut e);
            same(&p, &(t.root(), e), "B06.proof");
            vp::cover("proved");
        }
        Err(MerkleTreeError::LoadError(_)) => {
            vp::check(need, "B06.prove-spurious");
            vp::cover("not proved");
        }
        Err(_) => vp::check(false, "B06.prove-error"),
    }
    vp::check(unsafe { (*p).writes.is_empty() }, "B06.writes");
    vp::observe("root", &t.root());
    vp::cover("end");
}
/// B07 at any size: count as for B10, failures in a row; any storage operation of a push fails.
#[no_mangle]
pub extern "C" fn h_b07_virt() {
    let n = windowed(vp::param(0), vp::param(1), vp::param(2), 1);
    vp::assume(n >= 1 && n < 1 << 62);
    let mut log = Log::new();
    let p: *mut Log = &mut *log;
    let Ok(mut t) = binary::MerkleTree::<T, Virt>::load(Virt(p), n) else {
        vp::check(false, "B07.load");
        return;
    };
    let l = unsafe { &mut *p };
    let d = vp::bytes(3, 2);
    for a in 0..vp::param(3) {
        let f = vp::sym_u64(10 + a as u32);
        vp::assume(f < 140);
        l.fail_at = l.ops + f;
        match t.push(&d) {
            Ok(()) => {
                vp::check(l.ops <= l.fail_at, "B07.swallowed");
                l.fail_at = u64::MAX;
                pushed(l, &t, n, &d, true, "B07.pushed");
                vp::cover("end");
                return;
            }
            Err(MerkleTreeError::StorageError(Fault(k))) => {
                vp::check_u64(k, l.fail_at, "B07.error");
                l.fail_at = u64::MAX;
                pushed(l, &t, n, &d, false, "B07.unchanged");
                vp::cover("failed");
            }
            Err(_) => {
                vp::check(false, "B07.error");
                return;
            }
        }
    }
    vp::check(t.push(&d).is_ok(), "B07.retry");
    pushed(l, &t, n, &d, true, "B07.retry");
    vp::observe("root", &t.root());
    vp::cover("end");
}
/// An index of a tree of `n` leaves: `x` counted from one of several places.
fn place(n: u64, mode: u64, x: u64) -> u64 {
    match mode {
        0 => x,
        1 => n - 1 - x.min(n - 1),
        2 => (n / 2).wrapping_add(x),
        // around the boundary of the largest peak
        3 => (1u64 << (63 - n.leading_zeros())).wrapping_sub(2).wrapping_add(x),
        // around the start of the smallest peak
        _ => (n - (n & n.wrapping_neg())).wrapping_sub(2).wrapping_add(x),
    }
}
fn refusedv(t: &binary::MerkleTree<T, Virt>, from: u64) {
    let i = vp::sym_u64(9);
    vp::assume(i >= from);
    match t.prove(i) {
        Err(MerkleTreeError::InvalidProofIndex(j)) => vp::check_u64(j, i, "B10.refused"),
        _ => vp::check(false, "B10.refused"),
    }
}

// Positions.

/// P01: param 0 = height h; every in-order index of that height. The heights 0 to 64 partition
/// the 64-bit range.
#[no_mangle]
pub extern "C" fn h_p01() {
    let h = vp::param(0);
    let ones = if h == 64 { u64::MAX } else { (1u64 << h) - 1 };
    let top = vp::sym_u64(1);
    let i = if h >= 63 { ones } else { top << (h + 1) | ones };
    let p = Position::from_in_order_index(i);
    vp::check_u64(p.in_order_index(), i, "P01.index");
    vp::check_u64(p.height() as u64, h, "P01.height");
    vp::check(p.is_leaf() == (h == 0), "P01.leaf");
    vp::check(p.is_node() == (h != 0), "P01.node");
    if h == 0 {
        vp::check_u64(p.leaf_index(), i >> 1, "P01.leaf-index");
        vp::check_u64(Position::from_leaf_index(i >> 1).in_order_index(), i, "P01.from-leaf-index");
    } else {
        // the left child ends half a span earlier, the right child half a span later
        let bit = 1u64 << (h - 1);
        let l = p.left_child();
        vp::check_u64(l.in_order_index(), i ^ bit, "P01.left");
        vp::check_u64(l.height() as u64, h - 1, "P01.child-height");
        vp::check(l.parent() == p, "P01.child-parent");
        if h < 64 {
            let r = p.right_child();
            vp::check_u64(r.in_order_index(), i ^ bit ^ 2 * bit, "P01.right");
            vp::check_u64(r.height() as u64, h - 1, "P01.child-height");
            vp::check(r.parent() == p, "P01.child-parent");
            vp::check(l.sibling() == r && r.sibling() == l, "P01.child-sibling");
        }
    }
    if h < 64 {
        // both children of a node differ in the bit above their height
        let up = if h < 63 { 2u64 << h } else { 0 };
        let par = (i | 1u64 << h) & !up;
        vp::check_u64(p.parent().in_order_index(), par, "P01.parent");
        vp::check_u64(p.parent().height() as u64, h + 1, "P01.parent-height");
        if h < 63 {
            vp::check_u64(p.sibling().in_order_index(), i ^ up, "P01.sibling");
            vp::check(p.sibling().sibling() == p, "P01.sibling-sibling");
            vp::check(p.sibling().parent() == p.parent(), "P01.sibling-parent");
        }
        if h < 62 {
            vp::check_u64(p.uncle().in_order_index(), par ^ (4u64 << h), "P01.uncle");
        }
    }
    vp::observe("index", &i.to_le_bytes());
    vp::cover("end");
}
/// P01 for leaf indices: every leaf index whose in-order index is representable.
#[no_mangle]
pub extern "C" fn h_p01_leaf() {
    let l = vp::sym_u64(1);
    vp::assume(l < 1 << 63);
    let p = Position::from_leaf_index(l);
    vp::check_u64(p.in_order_index(), l << 1, "P01.from-leaf-index");
    vp::check(p.is_leaf() && !p.is_node(), "P01.leaf");
    vp::check_u64(p.leaf_index(), l, "P01.leaf-index");
    vp::check_u64(p.height() as u64, 0, "P01.height");
    vp::observe("index", &l.to_le_bytes());
    vp::cover("end");
}

/// Path pairs of leaf `m` in the tree of `n` leaves from leaf `a`: (subtree top, other top).
fn spath(a: u64, n: u64, m: u64, other: u64, out: &mut Vec<(u64, u64)>) {
    let me = tree_top(a, n);
    out.push((me, other));
    if n == 1 {
        return;
    }
    let k = 1u64 << (63 - (n - 1).leading_zeros());
    if m < k {
        spath(a, k, m, tree_top(a + k, n - k), out)
    } else {
        spath(a + k, n - k, m - k, tree_top(a, k), out)
    }
}
/// In-order index of the top node of the RFC subtree over `n` leaves from leaf `a`.
fn tree_top(a: u64, n: u64) -> u64 {
    if n == 1 {
        return 2 * a;
    }
    let k = 1u64 << (63 - (n - 1).leading_zeros());
    2 * (a + k) - 1
}

/// P02: leaf count and leaf index, each fixed except for a window; mode 1: index counted from the end.
#[no_mangle]
pub extern "C" fn h_p02() {
    let n = windowed(vp::param(0), vp::param(1), vp::param(2), 1);
    vp::assume(n >= 1 && n <= 1 << 62);
    let x = windowed(vp::param(3), vp::param(4), vp::param(5), 2);
    vp::assume(x < n);
    let m = if vp::param(6) == 1 { n - 1 - x } else { x };
    let root = Position::from_in_order_index(tree_top(0, n));
    let leaf = Position::from_leaf_index(m);
    let mut want = Vec::new();
    spath(0, n, m, root.in_order_index(), &mut want);
    let mut got: Vec<(u64, u64)> = Vec::new();
    for (p, s) in root.path(&leaf, n).iter() {
        got.push((p.in_order_index(), s.in_order_index()));
        if got.len() > 200 {
            break;
        }
    }
    vp::check_u64(got.len() as u64, want.len() as u64, "P02.length");
    for (g, w) in got.iter().zip(&want) {
        vp::check_u64(g.0, w.0, "P02.path");
        vp::check_u64(g.1, w.1, "P02.side");
    }
    vp::cover("end");
}
