//! Sparse Merkle tree.
use super::spec::*;
use super::store::*;
use super::vp;
use fuel_merkle::common::Bytes32;
use fuel_merkle::sparse::{self, in_memory, MerkleTreeError, Primitive};
use fuel_storage::Mappable;

pub struct T;
impl Mappable for T {
    type Key = Bytes32;
    type SetValue = Primitive;
    type GetValue = Primitive;
}
pub type St = Store<Bytes32, Primitive>;
pub type H = Handle<T, Bytes32, Primitive>;
pub type Tree = sparse::MerkleTree<T, H>;

const ZERO: H32 = [0; 32];

/// A set of symbolic keys whose pairwise common prefix lengths are fixed: key 0 is free, key j
/// shares exactly `c` leading bits with key `p` and is free below that. Some of them do not stand for
/// an entry but for a whole subtree, of any two or more entries, that begins at some depth: its top
/// node is stored, nothing is known about what is below.
pub struct Keys {
    pub k: Vec<Bytes32>,
    /// Common prefix lengths.
    pub l: Vec<Vec<usize>>,
    /// Depth of the subtree; 0: an entry.
    pub od: Vec<usize>,
    /// Indices of the entries.
    pub real: Vec<usize>,
}
impl Keys {
    pub fn new(tag: u32) -> Self {
        Keys { k: vec![vp::sym(tag)], l: vec![vec![256]], od: vec![0], real: vec![0] }
    }
    /// Adds a key sharing exactly `c` bits with key `p`. No key may already diverge from `p` at bit `c`.
    pub fn add(&mut self, p: usize, c: usize, tag: u32) -> usize {
        let fresh: Bytes32 = vp::sym(tag);
        let par = self.k[p];
        let mut b = [0u8; 32];
        for i in 0..32 {
            let shared = c.saturating_sub(8 * i).min(8) as u32;
            let low = if shared == 8 { 0u8 } else { 0xff >> shared };
            b[i] = (par[i] & !low) | (fresh[i] & low);
            if c / 8 == i {
                let bit = 0x80u8 >> (c % 8);
                b[i] = (b[i] & !bit) | (!par[i] & bit);
            }
        }
        let mut row: Vec<usize> = Vec::new();
        for q in 0..self.k.len() {
            let v = if q == p {
                c
            } else {
                assert!(self.l[p][q] != c);
                self.l[p][q].min(c)
            };
            row.push(v);
            self.l[q].push(v);
        }
        row.push(256);
        self.l.push(row);
        self.k.push(b);
        self.od.push(0);
        self.real.push(self.k.len() - 1);
        self.k.len() - 1
    }
    /// Shape from the job parameters starting at `at`: number of keys, then (parent, depth) pairs;
    /// 1000 e added to the parent: a subtree that begins e levels below the one where it leaves the parent.
    /// 1000 f added to the number of keys: key 0 is not symbolic but zero (f = 1), ones (2) or made from f.
    pub fn from_params(at: u64, tag: u32) -> Self {
        let (m, f) = (vp::param(at) as usize % 1000, vp::param(at) / 1000);
        let mut s = Keys::new(tag);
        if f > 0 {
            let mut x = f.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            for b in &mut s.k[0] {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                *b = [0, 0xff, x as u8][f.min(3) as usize - 1];
            }
        }
        for j in 1..m {
            let (p, c) = (vp::param(at + 2 * j as u64 - 1) as usize, vp::param(at + 2 * j as u64) as usize);
            s.add(p % 1000, c, tag + j as u32);
            if p >= 1000 {
                s.od[j] = c + p / 1000;
                s.real.pop();
            }
        }
        s
    }
}

/// The map a tree should hold: key index -> hash of data.
pub type Map = Vec<Option<H32>>;

pub fn sleaf(k: &Bytes32, dh: &H32) -> H32 {
    vp::hash_cat(&[&[0], k, dh])
}
fn bit0(k: &Bytes32, d: usize) -> bool {
    k[d / 8] & (0x80 >> (d % 8)) == 0
}
/// One node of the specified tree.
pub struct Spec {
    pub hash: H32,
    pub height: u32,
    pub prefix: u8,
    pub lo: H32,
    pub hi: H32,
    /// Key indices below.
    pub set: Vec<usize>,
    pub depth: usize,
}
/// Root of the canonical sparse Merkle tree over the entries `set`, at `depth`.
pub fn sroot_at(ks: &Keys, m: &Map, set: &[usize], depth: usize, out: &mut Option<&mut Vec<Spec>>) -> H32 {
    match set.len() {
        0 => ZERO,
        1 if ks.od[set[0]] > 0 => {
            let x = set[0];
            let (lo, hi) = if depth < ks.od[x] {
                let h = sroot_at(ks, m, set, depth + 1, out);
                if bit0(&ks.k[x], depth) {
                    (h, ZERO)
                } else {
                    (ZERO, h)
                }
            } else {
                // what is below is hashed over entries that are nowhere else in the tree
                let h = |i: u32| vp::hash_cat(&[b"below", &(2 * x as u32 + i).to_le_bytes(), &vp::sym::<32>(800 + 2 * x as u32 + i)]);
                match vp::choose(700 + x as u32, 3) {
                    0 => (h(0), h(1)),
                    1 => (ZERO, h(1)),
                    _ => (h(0), ZERO),
                }
            };
            let h = node_hash(&lo, &hi);
            if let Some(o) = out {
                o.push(Spec { hash: h, height: (256 - depth) as u32, prefix: 1, lo, hi, set: set.to_vec(), depth });
            }
            h
        }
        1 => {
            let k = ks.k[set[0]];
            let dh = m[set[0]].unwrap();
            let h = sleaf(&k, &dh);
            if let Some(o) = out {
                o.push(Spec { hash: h, height: 0, prefix: 0, lo: k, hi: dh, set: set.to_vec(), depth });
            }
            h
        }
        _ => {
            let r = set[0];
            let mut a = Vec::new();
            let mut b = Vec::new();
            for &x in set {
                if ks.l[r][x] > depth {
                    a.push(x)
                } else {
                    b.push(x)
                }
            }
            let ha = sroot_at(ks, m, &a, depth + 1, out);
            let hb = sroot_at(ks, m, &b, depth + 1, out);
            let (lo, hi) = if bit0(&ks.k[r], depth) { (ha, hb) } else { (hb, ha) };
            let h = node_hash(&lo, &hi);
            if let Some(o) = out {
                o.push(Spec { hash: h, height: (256 - depth) as u32, prefix: 1, lo, hi, set: set.to_vec(), depth });
            }
            h
        }
    }
}
pub fn present(m: &Map) -> Vec<usize> {
    let mut v = Vec::new();
    for i in 0..m.len() {
        if m[i].is_some() {
            v.push(i)
        }
    }
    v
}
pub fn sroot(ks: &Keys, m: &Map) -> H32 {
    sroot_at(ks, m, &present(m), 0, &mut None)
}
pub fn snodes(ks: &Keys, m: &Map) -> Vec<Spec> {
    let mut v = Vec::new();
    sroot_at(ks, m, &present(m), 0, &mut Some(&mut v));
    v
}


type Res<X> = Result<X, MerkleTreeError<Fault>>;

/// A map over symbolic keys, kept beside the tree under test.
#[derive(Clone)]
struct World {
    map: Map,
    /// Data under each key.
    data: Vec<Option<Vec<u8>>>,
}
impl World {
    fn new(m: usize) -> Self {
        World { map: vec![None; m], data: vec![None; m] }
    }
    fn set(&mut self, i: usize, d: &[u8]) {
        if d.is_empty() {
            self.unset(i);
            return;
        }
        self.map[i] = Some(vp::hash(d));
        self.data[i] = Some(d.to_vec());
    }
    fn unset(&mut self, i: usize) {
        self.map[i] = None;
        self.data[i] = None;
    }
}
/// An operation on one of the keys.
#[derive(Clone)]
enum Op {
    Put(usize, Vec<u8>),
    Del(usize),
}
impl Op {
    /// Every operation on the keys: writing fresh data of `dl` bytes, or deleting.
    fn any(tag: u32, ks: &Keys, dl: usize) -> Op {
        let m = ks.real.len();
        let o = vp::choose(tag, 2 * m as u64) as usize;
        if o < m {
            Op::Put(ks.real[o], vp::bytes(tag + 1000, dl))
        } else {
            Op::Del(ks.real[o - m])
        }
    }
    fn run(&self, t: &mut Tree, ks: &Keys) -> Res<()> {
        match self {
            Op::Put(i, d) => t.update(&ks.k[*i], d),
            Op::Del(i) => t.delete(&ks.k[*i]),
        }
    }
    fn on(&self, w: &mut World) {
        match self {
            Op::Put(i, d) => w.set(*i, d),
            Op::Del(i) => w.unset(*i),
        }
    }
}
fn fine<X>(r: Res<X>, id: &str) {
    vp::check(r.is_ok(), id)
}
fn live(s: &St) -> u64 {
    s.recs.iter().filter(|r| r.key[32] == 1).count() as u64
}
fn record_is(s: &St, n: &Spec, id: &str) {
    match s.get(&n.hash) {
        None => vp::check(false, id),
        Some((h, p, lo, hi)) => {
            vp::check_u64(h as u64, n.height as u64, id);
            vp::check_u64(p as u64, n.prefix as u64, id);
            vp::check_eq(&lo, &n.lo, id);
            vp::check_eq(&hi, &n.hi, id);
        }
    }
}
/// Every node of the map's tree is stored.
fn complete(s: &St, ks: &Keys, m: &Map, id: &str) {
    for n in snodes(ks, m) {
        record_is(s, &n, id);
    }
}
/// A state after some history, by job parameters:
/// `how` = 0: the present keys were inserted in order into an empty tree;
/// 1: as 0, then the first key was written and deleted again twice (stale nodes remain);
/// 2: as 0 but every key was inserted with other data first, then overwritten;
/// 3: all keys inserted, absent ones deleted again;
/// 4: exactly the nodes of the map, and the tree loaded from its root;
/// 5: as 4 with the nodes of an older version of the map beside them.
fn prepare(how: u64, ks: &Keys, s: &mut St, w: &mut World, dl: usize) -> Tree {
    let m = ks.k.len();
    let set = vp::choose(90, 1 << m);
    for i in 0..m {
        if set >> i & 1 == 1 && ks.od[i] > 0 {
            w.map[i] = Some(ZERO);
        } else if set >> i & 1 == 1 {
            w.set(i, &vp::bytes(400 + i as u32, dl));
        }
    }
    if how >= 4 {
        if how == 5 {
            let mut old = World::new(m);
            for &i in &ks.real {
                old.set(i, &vp::bytes(450 + i as u32, dl + 1));
            }
            for n in snodes(ks, &old.map) {
                s.put(&n.hash, (n.height, n.prefix, n.lo, n.hi));
            }
        }
        for n in snodes(ks, &w.map) {
            s.put(&n.hash, (n.height, n.prefix, n.lo, n.hi));
        }
        let r = sroot(ks, &w.map);
        return match Tree::load(s.handle(), &r) {
            Ok(t) => t,
            Err(_) => panic!("prepared tree does not load"),
        };
    }
    let mut t = Tree::new(s.handle());
    if how == 2 {
        for i in 0..m {
            if w.map[i].is_some() {
                t.update(&ks.k[i], &vp::bytes(450 + i as u32, dl + 1)).unwrap();
            }
        }
    }
    for i in 0..m {
        if let Some(d) = &w.data[i] {
            t.update(&ks.k[i], d).unwrap();
        } else if how == 3 {
            t.update(&ks.k[i], &vp::bytes(450 + i as u32, dl + 1)).unwrap();
        }
    }
    if how == 3 {
        for i in 0..m {
            if w.map[i].is_none() {
                t.delete(&ks.k[i]).unwrap();
            }
        }
    }
    if how == 1 {
        for j in 0..2 {
            t.update(&ks.k[0], &vp::bytes(480 + j, dl + 1 + j as usize)).unwrap();
            t.delete(&ks.k[0]).unwrap();
        }
        if let Some(d) = &w.data[0] {
            t.update(&ks.k[0], d).unwrap();
        }
    }
    t
}

/// S01: params: steps, data length, then the key shape. Every operation sequence of that length,
/// from the empty tree.
#[no_mangle]
pub extern "C" fn h_s01() {
    let steps = vp::param(0);
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(2, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut st = St::new();
    let mut t = Tree::new(st.handle());
    vp::check_eq(&t.root(), &ZERO, "S01.empty");
    for s in 0..steps {
        let o = Op::any(100 + s as u32, &ks, dl);
        fine(o.run(&mut t, &ks), "S01.ok");
        o.on(&mut w);
        let r = t.root();
        vp::check_eq(&r, &sroot(&ks, &w.map), "S01.root");
        vp::observe("root", &r);
    }
    vp::cover("end");
}

/// S01, one step: params: how the state arose, data length, steps, key shape. Every set of present
/// keys, then every operation sequence of that length.
#[no_mangle]
pub extern "C" fn h_s01_step() {
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(3, 1);
    let mut w = World::new(ks.k.len());
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S01.root");
    for j in 0..vp::param(2) {
        let o = Op::any(100 + j as u32, &ks, dl);
        fine(o.run(&mut t, &ks), "S01.ok");
        o.on(&mut w);
        vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S01.root");
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// S02: params: how, data length, key shape.
#[no_mangle]
pub extern "C" fn h_s02() {
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(2, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    let before = t.root();
    let i = ks.real[vp::choose(1, ks.real.len() as u64) as usize];
    let k = &ks.k[i];
    match vp::choose(2, 4) {
        0 => {
            // the last data written counts
            let d = vp::bytes(3, dl);
            fine(t.update(k, &vp::bytes(2, dl)), "S02.ok");
            fine(t.update(k, &d), "S02.ok");
            w.set(i, &d);
            let r = t.root();
            vp::check_eq(&r, &sroot(&ks, &w.map), "S02.overwrite");
            fine(t.update(k, &d), "S02.ok");
            vp::check_eq(&t.root(), &r, "S02.repeat");
        }
        1 => {
            // repeating the data already there
            if let Some(d) = w.data[i].clone() {
                fine(t.update(k, &d), "S02.ok");
                vp::check_eq(&t.root(), &before, "S02.repeat");
                vp::cover("repeat");
            }
        }
        2 => {
            // empty data deletes
            let mut s2 = s.clone_box();
            let mut u = Tree::new(s2.handle());
            if before != ZERO {
                u = Tree::load(s2.handle(), &before).unwrap();
            }
            fine(t.update(k, &[]), "S02.ok");
            fine(u.delete(k), "S02.ok");
            vp::check_eq(&t.root(), &u.root(), "S02.empty");
            w.unset(i);
            vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S02.empty-root");
            vp::check_u64(live(&s), live(&s2), "S02.empty-storage");
        }
        _ => {
            // delete undoes insert
            if w.map[i].is_none() {
                fine(t.update(k, &vp::bytes(2, dl)), "S02.ok");
                fine(t.delete(k), "S02.ok");
                vp::check_eq(&t.root(), &before, "S02.undo");
                vp::cover("undo");
            }
        }
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// S03: params: how, data length, key shape.
#[no_mangle]
pub extern "C" fn h_s03() {
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(2, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    let i = ks.real[vp::choose(1, ks.real.len() as u64) as usize];
    if w.map[i].is_some() {
        // inserted and already deleted
        fine(t.delete(&ks.k[i]), "S03.ok");
        w.unset(i);
    }
    let before = t.root();
    for _ in 0..2 {
        fine(t.delete(&ks.k[i]), "S03.ok");
        vp::check_eq(&t.root(), &before, "S03.root");
        complete(&s, &ks, &w.map, "S03.entries");
        match Tree::load(s.handle(), &before) {
            Ok(u) => vp::check_eq(&u.root(), &before, "S03.reload"),
            Err(_) => vp::check(false, "S03.reload"),
        }
    }
    // every other key is still there: take them out one by one
    for &j in &ks.real {
        if w.map[j].is_some() {
            fine(t.delete(&ks.k[j]), "S03.ok");
            w.unset(j);
            vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S03.others");
        }
    }
    vp::observe("root", &before);
    vp::cover("end");
}

/// S04: params: steps before, steps after, data length, key shape.
#[no_mangle]
pub extern "C" fn h_s04() {
    let (a, b) = (vp::param(0), vp::param(1));
    let dl = vp::param(2) as usize;
    let ks = Keys::from_params(3, 1);
    let mut s = St::new();
    let mut t = Tree::new(s.handle());
    for j in 0..a {
        fine(Op::any(100 + j as u32, &ks, dl).run(&mut t, &ks), "S04.ok");
    }
    let mut s2 = s.clone_box();
    let mut u = match Tree::load(s2.handle(), &t.root()) {
        Ok(u) => u,
        Err(_) => {
            vp::check(false, "S04.load");
            return;
        }
    };
    vp::check_eq(&u.root(), &t.root(), "S04.loaded");
    for j in a..a + b {
        let o = Op::any(100 + j as u32, &ks, dl);
        fine(o.run(&mut t, &ks), "S04.ok");
        fine(o.run(&mut u, &ks), "S04.loaded-ok");
        vp::check_eq(&u.root(), &t.root(), "S04.root");
    }
    vp::observe("root", &u.root());
    vp::cover("end");
}
/// S04 from a prepared state: params: how, steps, data length, key shape. Reloads before every step.
#[no_mangle]
pub extern "C" fn h_s04_step() {
    let dl = vp::param(2) as usize;
    let ks = Keys::from_params(3, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    for j in 0..vp::param(1) {
        let r = t.root();
        t = match Tree::load(s.handle(), &r) {
            Ok(u) => u,
            Err(_) => {
                vp::check(false, "S04.load");
                return;
            }
        };
        vp::check_eq(&t.root(), &r, "S04.loaded");
        let o = Op::any(100 + j as u32, &ks, dl);
        fine(o.run(&mut t, &ks), "S04.loaded-ok");
        o.on(&mut w);
        vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S04.root");
    }
    fine(Tree::load(s.handle(), &t.root()).map(|_| ()), "S04.load");
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// S05: params: how, steps, data length, key shape.
#[no_mangle]
pub extern "C" fn h_s05() {
    let dl = vp::param(2) as usize;
    let ks = Keys::from_params(3, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    complete(&s, &ks, &w.map, "S05.complete");
    for j in 0..vp::param(1) {
        let o = Op::any(100 + j as u32, &ks, dl);
        fine(o.run(&mut t, &ks), "S05.ok");
        o.on(&mut w);
        vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S05.root");
        complete(&s, &ks, &w.map, "S05.complete");
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// S06: keys that equal hashes of nodes of the tree, or the all-zero key.
/// params: steps, data length, what, key shape. Key 0 takes part in the relation:
/// 0: key 0 is zero; 1: key 0 = leaf hash of key 1; 2: key 0 = inner node over keys 1 and 2;
/// 3: key 1 = leaf hash of key 0, key 2 = leaf hash of key 1; 4: key 0 is all ones;
/// 5: key 0 = hash of the data under key 1; 6: key 0 = hash of the empty string.
#[no_mangle]
pub extern "C" fn h_s06() {
    let steps = vp::param(0);
    let dl = vp::param(1) as usize;
    let what = vp::param(2);
    let ks = Keys::from_params(3, 1);
    let m = ks.k.len();
    let d: Vec<Vec<u8>> = (0..m).map(|i| vp::bytes(400 + i as u32, dl)).collect();
    let mut w = World::new(m);
    for i in 0..m {
        w.set(i, &d[i]);
    }
    let leaf = |i: usize| sleaf(&ks.k[i], &w.map[i].unwrap());
    match what {
        0 => vp::assume(vp::eq(&ks.k[0], &ZERO)),
        1 => vp::assume(vp::eq(&ks.k[0], &leaf(1))),
        2 => vp::assume(vp::eq(&ks.k[0], &sroot_at(&ks, &w.map, &[1, 2], ks.l[1][2], &mut None))),
        3 => vp::assume(vp::eq(&ks.k[1], &leaf(0)) & vp::eq(&ks.k[2], &leaf(1))),
        4 => vp::assume(vp::eq(&ks.k[0], &[0xff; 32])),
        5 => vp::assume(vp::eq(&ks.k[0], &w.map[1].unwrap())),
        _ => vp::assume(vp::eq(&ks.k[0], &EMPTY)),
    }
    let mut s = St::new();
    let mut t = Tree::new(s.handle());
    let mut w = World::new(m);
    for j in 0..steps {
        let o = match vp::choose(100 + j as u32, 2 * m as u64) as usize {
            i if i < m => Op::Put(i, d[i].clone()),
            i => Op::Del(i - m),
        };
        fine(o.run(&mut t, &ks), "S06.ok");
        o.on(&mut w);
        vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S06.root");
        complete(&s, &ks, &w.map, "S06.entries");
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

fn refusal<X>(r: &Res<X>) -> bool {
    match r {
        Err(MerkleTreeError::StorageError(_)) => false,
        Err(_) => true,
        Ok(_) => false,
    }
}

/// S07: params: mode (0: absent records, 1: malformed records; 2 more: the tree is loaded from exactly its nodes; 4 more: one record only, any), data length, 1 to reload first (10 (b + 1) more: only record b, from 1000 on counted from the last), key shape.
#[no_mangle]
pub extern "C" fn h_s07() {
    let mode = vp::param(0);
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(3, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = prepare(if mode & 2 != 0 { 4 } else { 0 }, &ks, &mut s, &mut w, dl);
    let one = mode & 4 != 0;
    let mode = mode & 1;
    let before = t.root();
    let nodes = snodes(&ks, &w.map);
    // every record of the tree may be absent, or carry any prefix that is not one
    let mut good: Vec<bool> = Vec::new();
    let mut at: Vec<usize> = Vec::new();
    let at_rec = (vp::param(2) / 10) as usize;
    let bad = match nodes.len() {
        0 => 0,
        _ if !one => 0,
        l if at_rec == 0 => vp::choose(6, l as u64) as usize,
        l if at_rec > 1000 => l - 1 - (at_rec - 1001).min(l - 1),
        l => (at_rec - 1).min(l - 1),
    };
    for (i, n) in nodes.iter().enumerate() {
        let x = s.index(&n.hash) as usize;
        let r = &mut s.recs[x];
        at.push(x);
        if one && i != bad {
            good.push(true);
        } else if mode == 0 {
            let p = vp::sym_bool(500 + i as u32);
            r.key[32] = p as u8;
            good.push(p);
        } else {
            let b: [u8; 1] = vp::sym(500 + i as u32);
            vp::assume((b[0] == n.prefix) | (b[0] > 1));
            r.val.1 = b[0];
            good.push(b[0] == n.prefix);
        }
    }
    if vp::param(2) % 10 == 1 {
        let r = Tree::load(s.handle(), &before);
        match r {
            Ok(u) => {
                vp::check_eq(&u.root(), &before, "S07.load-root");
                if let Some(i) = nodes.iter().position(|n| n.depth == 0) {
                    vp::check(good[i], "S07.load-bad");
                }
                t = u;
                vp::cover("loaded");
            }
            Err(e) => {
                let i = nodes.iter().position(|n| n.depth == 0);
                vp::check(i.map(|i| !good[i]).unwrap_or(false), "S07.load-spurious");
                vp::check(
                    match e {
                        MerkleTreeError::LoadError(_) => mode == 0,
                        MerkleTreeError::DeserializeError(_) => mode == 1,
                        _ => false,
                    },
                    "S07.load-error",
                );
                vp::cover("not loaded");
                return;
            }
        }
    }
    let o = Op::any(100, &ks, dl);
    let i = match &o {
        Op::Put(i, _) => *i,
        Op::Del(i) => *i,
    };
    // Nodes below the root on the way to key i: without them no operation on the key can be right.
    // The leaf of key i itself may be written anew by an update.
    let mut needed = true;
    let mut all = true;
    for (j, n) in nodes.iter().enumerate() {
        all &= good[j];
        if n.depth == 0 {
            continue;
        }
        let below = n.set.contains(&i) || n.set.iter().any(|x| ks.l[*x][i] >= n.depth);
        if below && (n.prefix == 1 || !(n.set == [i] && matches!(o, Op::Put(..)))) {
            needed &= good[j];
        }
    }
    let r = o.run(&mut t, &ks);
    if r.is_ok() {
        vp::check(needed, "S07.used");
        o.on(&mut w);
        vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S07.root");
        vp::cover("ok");
    } else {
        vp::check(refusal(&r), "S07.error");
        vp::check(!all, "S07.spurious");
        vp::check_eq(&t.root(), &before, "S07.unchanged");
        vp::cover("refused");
    }
    vp::cover("end");
}
/// S07: loading from a root that was never stored, or any other record.
#[no_mangle]
pub extern "C" fn h_s07_load() {
    let ks = Keys::from_params(0, 1);
    let mut w = World::new(ks.k.len());
    let mut s = St::new();
    let t = prepare(0, &ks, &mut s, &mut w, 1);
    let r: Bytes32 = vp::sym(600);
    let k = s.index(&r);
    match Tree::load(s.handle(), &r) {
        Ok(u) => {
            vp::check((k >= 0) | vp::eq(&r, &ZERO), "S07.load-any");
            vp::check_eq(&u.root(), &r, "S07.load-any-root");
        }
        Err(MerkleTreeError::LoadError(_)) => vp::check((k < 0) & !vp::eq(&r, &ZERO), "S07.load-none"),
        Err(_) => vp::check(false, "S07.load-error"),
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

fn is_fault<X>(r: &Res<X>) -> bool {
    // the storage error comes back itself or inside a child error
    match r {
        Err(MerkleTreeError::StorageError(_)) => true,
        Err(MerkleTreeError::ChildError(_)) => true,
        _ => false,
    }
}

/// S08: params: how, data length, failing attempts (10 (lo + 1) more: the failing operation is one of the 4 from number lo on), key shape.
#[no_mangle]
pub extern "C" fn h_s08() {
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(3, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    let win = vp::param(2) / 10;
    for a in 0..vp::param(2) % 10 {
        let o = Op::any(100 + a as u32, &ks, dl);
        let f = vp::sym_u64(10 + a as u32);
        vp::assume(f < 100000);
        if win > 0 {
            vp::assume(f >= win - 1 && f < win + 3);
        }
        s.fail_at = s.ops + f;
        s.failed = false;
        let before = t.root();
        let mut w2 = w.clone();
        o.on(&mut w2);
        let r = o.run(&mut t, &ks);
        s.fail_at = u64::MAX;
        let now = t.root();
        if r.is_ok() {
            vp::check(!s.failed, "S08.swallowed");
            vp::check_eq(&now, &sroot(&ks, &w2.map), "S08.done");
            vp::cover("done");
        } else {
            vp::check(is_fault(&r), "S08.error");
            let old = vp::eq(&now, &before);
            let new = vp::eq(&now, &sroot(&ks, &w2.map));
            vp::check(old | new, "S08.either");
            if now == before {
                // nothing happened: the old entries are all there
                complete(&s, &ks, &w.map, "S08.intact");
                fine(Tree::load(s.handle(), &now).map(|_| ()), "S08.reload");
                vp::cover("before");
            } else {
                complete(&s, &ks, &w2.map, "S08.intact");
                fine(Tree::load(s.handle(), &now).map(|_| ()), "S08.reload");
                vp::cover("after");
            }
            // repeating it gives the intended map
            fine(o.run(&mut t, &ks), "S08.repeat");
        }
        w = w2;
        vp::check_eq(&t.root(), &sroot(&ks, &w.map), "S08.root");
        complete(&s, &ks, &w.map, "S08.entries");
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// E01 for sparse trees: how, data length, 0 to load from any root or 1 to operate, key shape; any storage operation fails.
#[no_mangle]
pub extern "C" fn h_e01_sparse() {
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(3, 1);
    let mut w = World::new(ks.k.len());
    let mut s = St::new();
    let mut t = prepare(vp::param(0), &ks, &mut s, &mut w, dl);
    let x = vp::sym_u64(10);
    vp::assume(x < 100000);
    s.fail_at = s.ops + x;
    s.failed = false;
    if vp::param(2) == 0 {
        let r: Bytes32 = vp::sym(600);
        match Tree::load(s.handle(), &r) {
            Ok(_) => vp::check(!s.failed, "E01.load-swallowed"),
            Err(MerkleTreeError::LoadError(y)) => {
                vp::check(!s.failed, "E01.load-fault");
                let mut e = [0u8; 64];
                for i in 0..32 {
                    for (j, d) in [r[i] >> 4, r[i] & 15].into_iter().enumerate() {
                        e[2 * i + j] = d + b'0' + (d > 9) as u8 * 39;
                    }
                }
                vp::check_u64(y.len() as u64, 64, "E01.load-root");
                vp::check_eq(y.as_bytes(), &e, "E01.load-root");
                vp::cover("absent");
            }
            Err(e) => {
                vp::check(s.failed, "E01.load-error");
                vp::check(fault_in(&e) == Some(s.fail_at), "E01.load-error");
                vp::cover("load fault");
            }
        }
    } else {
        let r = Op::any(100, &ks, dl).run(&mut t, &ks);
        match r {
            Ok(_) => vp::check(!s.failed, "E01.swallowed"),
            Err(e) => {
                vp::check(s.failed, "E01.error");
                vp::check(fault_in(&e) == Some(s.fail_at), "E01.error");
                vp::cover("fault");
            }
        }
    }
    vp::observe("root", &t.root());
    vp::cover("end");
}

/// S09: params: steps, data length, key shape.
#[no_mangle]
pub extern "C" fn h_s09() {
    let dl = vp::param(1) as usize;
    let ks = Keys::from_params(2, 1);
    let m = ks.k.len();
    let mut w = World::new(m);
    let mut s = St::new();
    let mut t = Tree::new(s.handle());
    let mut u = in_memory::MerkleTree::new();
    vp::check_eq(&u.root(), &ZERO, "S09.empty");
    vp::check_eq(&in_memory::MerkleTree::default().root(), &ZERO, "S09.empty");
    for j in 0..vp::param(0) {
        let o = Op::any(100 + j as u32, &ks, if vp::choose(300 + j as u32, 2) == 0 { dl } else { 0 });
        fine(o.run(&mut t, &ks), "S09.ok");
        match &o {
            Op::Put(i, d) => u.update(&ks.k[*i], d),
            Op::Del(i) => u.delete(&ks.k[*i]),
        }
        o.on(&mut w);
        vp::check_eq(&u.root(), &t.root(), "S09.root");
        vp::check_eq(&u.root(), &sroot(&ks, &w.map), "S09.canonical");
    }
    vp::observe("root", &u.root());
    vp::cover("end");
}

/// S10: two maps: data lengths a, b, then two key shapes.
#[no_mangle]
pub extern "C" fn h_s10() {
    let (la, lb) = (vp::param(0) as usize, vp::param(1) as usize);
    let k1 = Keys::from_params(2, 1);
    let m1 = k1.k.len();
    let k2 = Keys::from_params(2 + 2 * m1 as u64 - 1, 30);
    let m2 = k2.k.len();
    let build = |ks: &Keys, n: usize, tag: u32, l: usize, s: &mut St| {
        let mut t = Tree::new(s.handle());
        let mut d = Vec::new();
        for i in 0..n {
            let x = vp::bytes(tag + i as u32, l);
            t.update(&ks.k[i], &x).unwrap();
            d.push(x);
        }
        (t.root(), d)
    };
    let n1 = vp::choose(80, m1 as u64 + 1) as usize;
    let n2 = vp::choose(81, m2 as u64 + 1) as usize;
    let (mut s1, mut s2) = (St::new(), St::new());
    let (r1, d1) = build(&k1, n1, 400, la, &mut s1);
    let (r2, d2) = build(&k2, n2, 450, lb, &mut s2);
    let equal = vp::eq(&r1, &r2);
    // every entry of either map is an entry of the other
    let mut same = n1 == n2;
    for i in 0..n1 {
        let mut f = false;
        for j in 0..n2 {
            f |= vp::eq(&k1.k[i], &k2.k[j]) & vp::eq(&d1[i], &d2[j]);
        }
        same &= f;
    }
    vp::check(!equal | same, "S10.binding");
    let z = vp::eq(&r1, &ZERO);
    vp::check(z == (n1 == 0), "S10.zero");
    vp::observe("a", &r1);
    vp::observe("b", &r2);
    vp::cover("end");
}
