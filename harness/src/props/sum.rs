//! Binary Merkle sum tree. Its node type cannot be named from outside the crate, so the table and
//! the storage take it by inference.
use super::spec::*;
use super::store::*;
use super::vp;
use fuel_merkle::common::Bytes32;
use fuel_merkle::sum;
use fuel_storage::Mappable;
use std::marker::PhantomData;

pub struct T<N>(PhantomData<N>);
impl<N: Clone> Mappable for T<N> {
    type Key = Bytes32;
    type SetValue = N;
    type GetValue = N;
}
pub type H<N> = Handle<T<N>, Bytes32, N>;
type Leaf = (u64, Vec<u8>);

fn leaf(fee: u64, d: &[u8]) -> H32 {
    vp::hash_cat(&[&[0], &fee.to_be_bytes(), d])
}
fn node(l: &(u64, H32), r: &(u64, H32)) -> H32 {
    vp::hash_cat(&[&[1], &l.0.to_be_bytes(), &l.1, &r.0.to_be_bytes(), &r.1])
}
/// A node of the specified tree: height, hash, fee, children, number of leaves.
struct Spec {
    height: u32,
    hash: H32,
    fee: u64,
    kids: Option<(H32, H32)>,
    n: usize,
}
fn log2_up(n: usize) -> u32 {
    let mut h = 0;
    while 1usize << h < n {
        h += 1;
    }
    h
}
/// Fee and digest of the tree over some leaves; its nodes go to `out`.
fn tree(l: &[(u64, H32)], out: &mut Vec<Spec>) -> (u64, H32) {
    match l.len() {
        0 => (0, EMPTY),
        1 => {
            out.push(Spec { height: 0, hash: l[0].1, fee: l[0].0, kids: None, n: 1 });
            l[0]
        }
        n => {
            let k = split(n);
            let a = tree(&l[..k], out);
            let b = tree(&l[k..], out);
            let mut fee = 0u64;
            for x in l {
                fee = fee.wrapping_add(x.0);
            }
            let h = node(&a, &b);
            out.push(Spec { height: log2_up(n), hash: h, fee, kids: Some((a.1, b.1)), n });
            (fee, h)
        }
    }
}
fn root(l: &[(u64, H32)]) -> (u64, H32) {
    tree(l, &mut Vec::new())
}
/// Fees that add up to at most 2^64-1: the differences of a non-decreasing sequence of totals.
struct Fees(u64);
impl Fees {
    fn next(&mut self, tag: u32) -> u64 {
        let total = vp::sym_u64(3000 + tag);
        vp::assume(total >= self.0);
        let fee = total.wrapping_sub(self.0);
        self.0 = total;
        fee
    }
}
/// `n` leaves with such fees, or, with `bits` below 64, with any fees of that many bits.
fn leaves(tag: u32, n: u64, pat: u64, bits: u64) -> Vec<Leaf> {
    let mut f = Fees(0);
    let mut fee = |t: u32| {
        if bits == 64 {
            f.next(t)
        } else {
            vp::sym_u64(3000 + t) & ((1 << bits) - 1)
        }
    };
    (0..n).map(|i| (fee(tag + i as u32), vp::bytes(1000 + tag + i as u32, leaf_len(i, pat)))).collect()
}
fn hashes(l: &[Leaf]) -> Vec<(u64, H32)> {
    l.iter().map(|x| (x.0, leaf(x.0, &x.1))).collect()
}
fn root_is(r: Result<(u64, Bytes32), Fault>, l: &[(u64, H32)], id: &str) {
    match r {
        Err(_) => vp::check(false, id),
        Ok(r) => {
            let w = root(l);
            vp::check_u64(r.0, w.0, id);
            vp::check_eq(&r.1, &w.1, id);
        }
    }
}
macro_rules! new_tree {
    ($s:ident, $t:ident) => {
        let mut $s = Store::<Bytes32, _>::new();
        let mut $t = sum::MerkleTree::<T<_>, H<_>>::new($s.handle());
    };
}
macro_rules! record_is {
    ($s:expr, $w:expr, $id:expr) => {
        let w = $w;
        match $s.get(&w.hash) {
            None => vp::check(false, $id),
            Some(r) => {
                vp::check_eq(r.hash(), &w.hash, $id);
                vp::check_u64(r.height() as u64, w.height as u64, $id);
                vp::check_u64(r.fee(), w.fee, $id);
                vp::check(r.is_leaf() == w.kids.is_none() && r.is_node() == w.kids.is_some(), $id);
                match (&w.kids, r.left_child_key(), r.right_child_key()) {
                    (None, None, None) => {}
                    (Some(k), Some(a), Some(b)) => {
                        vp::check_eq(&a, &k.0, $id);
                        vp::check_eq(&b, &k.1, $id);
                    }
                    _ => vp::check(false, $id),
                }
            }
        }
    };
}
/// The nodes that must be stored for leaves `l`: the complete ones, and after a root read all.
fn stored(l: &[(u64, H32)], read: bool) -> Vec<Spec> {
    let mut v = Vec::new();
    tree(l, &mut v);
    if !read {
        v.retain(|x| x.n.is_power_of_two());
    }
    v
}

/// M01: n, length pattern, bits of a fee.
#[no_mangle]
pub extern "C" fn h_m01() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1), vp::param(2));
    let h = hashes(&d);
    new_tree!(s, t);
    new_tree!(s2, quiet);
    root_is(t.root(), &[], "M01.empty");
    for i in 0..n as usize {
        vp::check(t.push(d[i].0, &d[i].1).is_ok(), "M01.ok");
        vp::check(quiet.push(d[i].0, &d[i].1).is_ok(), "M01.ok");
        root_is(t.root(), &h[..=i], "M01.root");
        root_is(t.root(), &h[..=i], "M01.root-again");
    }
    root_is(quiet.root(), &h, "M01.root-unread");
    let r = quiet.root().unwrap();
    vp::observe("fee", &r.0.to_le_bytes());
    vp::observe("root", &r.1);
    vp::cover("end");
    let _ = (&mut s, &mut s2);
}
/// M01 with every combination of leaf lengths.
#[no_mangle]
pub extern "C" fn h_m01_len() {
    let n = vp::param(0);
    let c = vp::param(1);
    new_tree!(s, t);
    let mut h = Vec::new();
    let mut f = Fees(0);
    for i in 0..n {
        let l = vp::param(2 + vp::choose(10 + i as u32, c));
        let d = vp::bytes(1000 + i as u32, l as usize);
        let fee = f.next(i as u32);
        h.push((fee, leaf(fee, &d)));
        vp::check(t.push(fee, &d).is_ok(), "M01.ok");
        root_is(t.root(), &h, "M01.root-len");
    }
    vp::observe("root", &t.root().unwrap().1);
    vp::cover("end");
    let _ = &mut s;
}

/// M02: n, length pattern, read the root after every push (1) or not, bits of a fee.
#[no_mangle]
pub extern "C" fn h_m02() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1), vp::param(3));
    new_tree!(s, t);
    let mut total = 0u64;
    for x in &d {
        vp::check(t.push(x.0, &x.1).is_ok(), "M02.ok");
        total = total.wrapping_add(x.0);
        if vp::param(2) == 1 {
            vp::check_u64(t.root().unwrap().0, total, "M02.total");
        }
    }
    vp::check_u64(t.root().unwrap().0, total, "M02.total");
    // every stored node against the leaves below it
    let h = hashes(&d);
    for w in stored(&h, true) {
        match s.get(&w.hash) {
            None => vp::check(false, "M02.node"),
            Some(r) => vp::check_u64(r.fee(), w.fee, "M02.node"),
        }
    }
    vp::observe("fee", &total.to_le_bytes());
    vp::cover("end");
}

/// M03: n, length pattern, read the root after every push (1), at the end (0), bits of a fee.
#[no_mangle]
pub extern "C" fn h_m03() {
    let n = vp::param(0);
    let d = leaves(0, n, vp::param(1), vp::param(3));
    let h = hashes(&d);
    let each = vp::param(2) == 1;
    new_tree!(s, t);
    for i in 0..n as usize {
        vp::check(t.push(d[i].0, &d[i].1).is_ok(), "M03.ok");
        for w in stored(&h[..=i], false) {
            record_is!(s, &w, "M03.pushed");
        }
        if each {
            vp::check(t.root().is_ok(), "M03.ok");
            for w in stored(&h[..=i], true) {
                record_is!(s, &w, "M03.read");
            }
        }
    }
    vp::check(t.root().is_ok(), "M03.ok");
    for w in stored(&h, true) {
        record_is!(s, &w, "M03.read");
    }
    vp::check(s.removes == 0, "M03.removed");
    vp::observe("root", &t.root().unwrap().1);
    vp::cover("end");
}

/// M04: n, length pattern, failing attempts, bits of a fee.
#[no_mangle]
pub extern "C" fn h_m04() {
    let n = vp::param(0);
    let m = vp::param(2);
    let d = leaves(0, n + 2 * m, vp::param(1), vp::param(3));
    let mut h = hashes(&d[..n as usize]);
    new_tree!(s, t);
    for x in &d[..n as usize] {
        vp::check(t.push(x.0, &x.1).is_ok(), "M04.ok");
    }
    let mut at = n as usize;
    for a in 0..m {
        let f = vp::sym_u64(10 + a as u32);
        vp::assume(f < 70);
        let (fee, x) = &d[at];
        s.fail_at = s.ops + f;
        s.failed = false;
        let reading = vp::choose(60 + a as u32, 2) == 1;
        if reading {
            match t.root() {
                Ok(r) => {
                    vp::check(!s.failed, "M04.swallowed");
                    root_is(Ok(r), &h, "M04.root");
                    vp::cover("read");
                }
                Err(Fault(k)) => {
                    vp::check_u64(k, s.fail_at, "M04.error");
                    vp::cover("read failed");
                }
            }
        } else {
            match t.push(*fee, x) {
                Ok(()) => {
                    vp::check(!s.failed, "M04.swallowed");
                    h.push((*fee, leaf(*fee, x)));
                    at += 1;
                    vp::cover("pushed");
                }
                Err(Fault(k)) => {
                    vp::check_u64(k, s.fail_at, "M04.error");
                    vp::cover("push failed");
                }
            }
        }
        s.fail_at = u64::MAX;
        root_is(t.root(), &h, "M04.unchanged");
        if s.failed && !reading {
            vp::check(t.push(*fee, x).is_ok(), "M04.retry");
            h.push((*fee, leaf(*fee, x)));
            at += 1;
            root_is(t.root(), &h, "M04.retry");
        }
    }
    for x in &d[at..] {
        vp::check(t.push(x.0, &x.1).is_ok(), "M04.after");
        h.push((x.0, leaf(x.0, &x.1)));
    }
    root_is(t.root(), &h, "M04.after");
    for w in stored(&h, true) {
        record_is!(s, &w, "M04.records");
    }
    vp::observe("root", &t.root().unwrap().1);
    vp::cover("end");
}

/// M05: counts n1, n2, bits of a fee (64: any fees that add up to 64 bits), then leaf lengths to draw from (count, lengths;
/// none: the i-th leaf of either list has i+1 bytes).
#[no_mangle]
pub extern "C" fn h_m05() {
    let (n1, n2, bits, c) = (vp::param(0), vp::param(1), vp::param(2), vp::param(3));
    let mk = |n: u64, tag: u32| -> Vec<Leaf> {
        let mut f = Fees(0);
        (0..n)
            .map(|i| {
                let l = if c == 0 { i + 1 } else { vp::param(4 + vp::choose(tag + i as u32, c)) };
                let fee = if bits == 64 { f.next(tag + i as u32) } else { vp::sym_u64(3000 + tag + i as u32) & ((1 << bits) - 1) };
                (fee, vp::bytes(1000 + tag + i as u32, l as usize))
            })
            .collect()
    };
    let a = mk(n1, 10);
    let b = mk(n2, 50);
    new_tree!(s1, t1);
    new_tree!(s2, t2);
    for x in &a {
        vp::check(t1.push(x.0, &x.1).is_ok(), "M05.ok");
    }
    for x in &b {
        vp::check(t2.push(x.0, &x.1).is_ok(), "M05.ok");
    }
    let (ra, rb) = (t1.root().unwrap().1, t2.root().unwrap().1);
    let equal = vp::eq(&ra, &rb);
    let mut sames = n1 == n2;
    for (x, y) in a.iter().zip(&b) {
        sames &= vp::eq(&x.0.to_le_bytes(), &y.0.to_le_bytes()) & vp::eq(&x.1, &y.1);
    }
    vp::check(!equal | sames, "M05.binding");
    vp::observe("a", &ra);
    vp::observe("b", &rb);
    vp::cover("end");
    let _ = (&mut s1, &mut s2);
}

/// E01 for sum trees: n, length pattern, fee bits. Any storage operation fails; the error comes back as it is.
#[no_mangle]
pub extern "C" fn h_e01_sum() {
    let n = vp::param(0);
    let d = leaves(0, n + 1, vp::param(1), vp::param(2));
    new_tree!(s, t);
    let x = vp::sym_u64(10);
    vp::assume(x < 100000);
    s.fail_at = x;
    let mut told = |s: &mut Box<Store<Bytes32, _>>, r: Result<(), Fault>, id: &str| {
        match &r {
            Ok(()) => vp::check(!s.failed, id),
            Err(Fault(y)) => {
                vp::check(s.failed, id);
                vp::check_u64(*y, s.fail_at, id);
            }
        }
        r.is_ok()
    };
    for x in &d {
        let r = t.push(x.0, &x.1);
        if !told(&mut s, r, "E01.sum-push") {
            vp::cover("fault");
            return;
        }
    }
    let r = t.root().map(|_| ());
    if !told(&mut s, r, "E01.sum-root") {
        vp::cover("root fault");
    }
    s.fail_at = u64::MAX;
    vp::check(t.root().is_ok(), "E01.sum-root");
    vp::cover("end");
}
