//! Hash-consed bit-vector terms with a normalising constructor for every operator.
//!
//! Bit 0 is the least significant bit. A byte buffer b[0..n] is the term whose bits
//! 8*i..8*i+8 are b[i] (little-endian concatenation).
//!
//! `Hash(m)` is the ideal hash of the byte string m: injective over all messages of all lengths,
//! also when restricted to any aligned slice of at least 64 bits, never all-zero and never
//! equal to SHA-256("") unless m is empty (then it is that constant).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let c = b.chunks_exact(8);
        let r = c.remainder();
        for x in c {
            self.write_u64(u64::from_le_bytes(x.try_into().unwrap()));
        }
        if !r.is_empty() {
            let mut x = 0u64;
            for (i, v) in r.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            self.write_u64(x);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big(pub Box<[u64]>); // limbs, little endian, masked to width

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(Big),
    Var(u32),            // index into Arena.vars
    Concat(Box<[E]>),    // least significant part first; >= 2 parts
    Slice(E, u32),       // (base, lo), width in arena
    Hash(E),             // 256 bits; message non-empty, width multiple of 8
    Not(E),              // any width
    And(Box<[E]>),       // width 1, n-ary, sorted
    BAnd(E, E),          // width > 1
    BOr(E, E),
    Xor(E, E),           // any width
    Add(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

pub struct Arena {
    pub nodes: Vec<N>,
    pub w: Vec<u32>,
    map: FxMap<(N, u32), E>,
    pub vars: Vec<VarInfo>,
    var_by_name: HashMap<String, E>,
    slice_memo: FxMap<(E, u32, u32), E>,
    eq_memo: FxMap<(E, E), E>,
    ite_memo: FxMap<(E, E, E), E>,
    /// Leading zero bits and upper bounds of the terms that have parts.
    /// Words computed by `eval` so far.
    pub evaluated: std::cell::Cell<usize>,
    bound_memo: std::cell::RefCell<(FxMap<E, u32>, FxMap<E, u128>)>,
    pub f: E,
    pub t: E,
    pub rewrites: u64,
}

fn limbs(w: u32) -> usize {
    ((w as usize) + 63) / 64
}

impl Big {
    pub fn from_u128(v: u128, w: u32) -> Big {
        let mut l = vec![0u64; limbs(w)];
        if !l.is_empty() {
            l[0] = v as u64;
        }
        if l.len() > 1 {
            l[1] = (v >> 64) as u64;
        }
        let mut b = Big(l.into());
        b.mask(w);
        b
    }
    fn mask(&mut self, w: u32) {
        if w % 64 != 0 {
            let n = limbs(w);
            self.0[n - 1] &= (1u64 << (w % 64)) - 1;
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.0[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn slice(&self, lo: u32, w: u32) -> Big {
        let mut l = vec![0u64; limbs(w)];
        let sh = lo % 64;
        let base = (lo / 64) as usize;
        for i in 0..l.len() {
            let a = self.0.get(base + i).copied().unwrap_or(0);
            let b = self.0.get(base + i + 1).copied().unwrap_or(0);
            l[i] = if sh == 0 { a } else { (a >> sh) | (b << (64 - sh)) };
        }
        let mut b = Big(l.into());
        b.mask(w);
        b
    }
    pub fn concat(&self, w: u32, hi: &Big, hw: u32) -> Big {
        let tw = w + hw;
        let mut l = vec![0u64; limbs(tw)];
        for (i, x) in self.0.iter().enumerate() {
            l[i] |= *x;
        }
        let sh = w % 64;
        let base = (w / 64) as usize;
        for (i, x) in hi.0.iter().enumerate() {
            if sh == 0 {
                l[base + i] |= *x;
            } else {
                l[base + i] |= *x << sh;
                if base + i + 1 < l.len() {
                    l[base + i + 1] |= *x >> (64 - sh);
                }
            }
        }
        let mut b = Big(l.into());
        b.mask(tw);
        b
    }
    pub fn to_u128(&self) -> Option<u128> {
        for x in self.0.iter().skip(2) {
            if *x != 0 {
                return None;
            }
        }
        Some(self.0.first().copied().unwrap_or(0) as u128 | (self.0.get(1).copied().unwrap_or(0) as u128) << 64)
    }
    pub fn from_bytes(b: &[u8]) -> Big {
        let mut l = vec![0u64; limbs(8 * b.len() as u32)];
        for (i, x) in b.iter().enumerate() {
            l[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        Big(l.into())
    }
    pub fn to_bytes(&self, w: u32) -> Vec<u8> {
        (0..(w as usize + 7) / 8).map(|i| (self.0[i / 8] >> (8 * (i % 8))) as u8).collect()
    }
    fn zip(&self, o: &Big, f: impl Fn(u64, u64) -> u64) -> Big {
        Big(self.0.iter().zip(o.0.iter()).map(|(a, b)| f(*a, *b)).collect())
    }
    fn ult(&self, o: &Big) -> bool {
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] < o.0[i];
            }
        }
        false
    }
    fn add(&self, o: &Big, w: u32) -> Big {
        let mut l = vec![0u64; self.0.len()];
        let mut c = 0u128;
        for i in 0..l.len() {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            l[i] = s as u64;
            c = s >> 64;
        }
        let mut b = Big(l.into());
        b.mask(w);
        b
    }
    fn not(&self, w: u32) -> Big {
        let mut b = Big(self.0.iter().map(|x| !*x).collect());
        b.mask(w);
        b
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
pub fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

/// Concrete semantics (w <= 128). Division by zero / oversized shifts give SMT-LIB results.
pub fn cbop(op: Bop, a: u128, b: u128, w: u32) -> u128 {
    let r = match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        Bop::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bop::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Bop::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Bop::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            let x = sext128(a, w);
            (if b >= w as u128 {
                if x < 0 {
                    -1
                } else {
                    0
                }
            } else {
                x >> b
            }) as u128
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
    };
    mask128(r, w)
}

pub const EMPTY_SHA: [u8; 32] = [
    0xe3, 0xb0, 0xc4, 0x42, 0x98, 0xfc, 0x1c, 0x14, 0x9a, 0xfb, 0xf4, 0xc8, 0x99, 0x6f, 0xb9, 0x24, 0x27, 0xae, 0x41,
    0xe4, 0x64, 0x9b, 0x93, 0x4c, 0xa4, 0x95, 0x99, 0x1b, 0x78, 0x52, 0xb8, 0x55,
];

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            w: vec![],
            map: Default::default(),
            vars: vec![],
            var_by_name: HashMap::new(),
            slice_memo: Default::default(),
            eq_memo: Default::default(),
            ite_memo: Default::default(),
            evaluated: Default::default(),
            bound_memo: Default::default(),
            f: 0,
            t: 0,
            rewrites: 0,
        };
        // 0 and 1 are reserved so that E >= 2 for real nodes is not required anywhere; f = 0, t = 1
        a.f = a.c(0, 1);
        a.t = a.c(1, 1);
        a
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        let k = (n, w);
        if let Some(e) = self.map.get(&k) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(k.0.clone());
        self.w.push(w);
        self.map.insert(k, e);
        e
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize]
    }
    pub fn node(&self, e: E) -> &N {
        &self.nodes[e as usize]
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::C(Big::from_u128(v, w)), w)
    }
    pub fn cbig(&mut self, b: Big, w: u32) -> E {
        self.mk(N::C(b), w)
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        if let Some(e) = self.var_by_name.get(name) {
            assert_eq!(self.width(*e), w, "variable {name} redeclared");
            return *e;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w });
        let e = self.mk(N::Var(id), w);
        self.var_by_name.insert(name.to_string(), e);
        e
    }
    pub fn as_c(&self, e: E) -> Option<&Big> {
        match self.node(e) {
            N::C(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_u(&self, e: E) -> Option<u128> {
        if self.width(e) > 128 {
            return None;
        }
        self.as_c(e).and_then(|b| b.to_u128())
    }
    pub fn is_const(&self, e: E) -> bool {
        matches!(self.node(e), N::C(_))
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            self.t
        } else {
            self.f
        }
    }

    // ---------- structure ----------
    pub fn concat(&mut self, parts: &[E]) -> E {
        let mut out: Vec<E> = Vec::with_capacity(parts.len());
        for &p in parts {
            if self.width(p) == 0 {
                continue;
            }
            if let N::Concat(ps) = self.node(p).clone() {
                for &q in ps.iter() {
                    self.push_part(&mut out, q);
                }
            } else {
                self.push_part(&mut out, p);
            }
        }
        if out.is_empty() {
            return self.mk(N::C(Big(Box::new([]))), 0);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|e| self.width(*e)).sum();
        self.mk(N::Concat(out.into()), w)
    }
    fn push_part(&mut self, out: &mut Vec<E>, q: E) {
        if let Some(&l) = out.last() {
            if let Some(m) = self.join(l, q) {
                out.pop();
                // joined part may join with predecessor again only when it became a full base; recurse
                if let N::Concat(ps) = self.node(m).clone() {
                    for &x in ps.iter() {
                        self.push_part(out, x);
                    }
                } else {
                    self.push_part(out, m);
                }
                return;
            }
        }
        out.push(q);
    }
    fn join(&mut self, lo: E, hi: E) -> Option<E> {
        let (wl, wh) = (self.width(lo), self.width(hi));
        match (self.node(lo), self.node(hi)) {
            (N::C(a), N::C(b)) => {
                let v = a.concat(wl, b, wh);
                Some(self.mk(N::C(v), wl + wh))
            }
            (N::Slice(a, l), N::Slice(b, m)) if a == b && l + wl == *m => {
                let (a, l) = (*a, *l);
                if l == 0 && wl + wh == self.width(a) {
                    Some(a)
                } else {
                    Some(self.mk(N::Slice(a, l), wl + wh))
                }
            }
            (N::Ite(c, a, b), N::Ite(d, x, y)) if c == d => {
                let (c, a, b, x, y) = (*c, *a, *b, *x, *y);
                if wl == 1 && wh == 1 && false {
                    return None;
                }
                let p = self.concat(&[a, x]);
                let q = self.concat(&[b, y]);
                Some(self.ite(c, p, q))
            }
            _ => None,
        }
    }
    pub fn slice(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.width(e);
        assert!(lo + w <= ew, "slice {lo}+{w} of width {ew}");
        if lo == 0 && w == ew {
            return e;
        }
        if let Some(r) = self.slice_memo.get(&(e, lo, w)) {
            return *r;
        }
        let r = match self.node(e).clone() {
            N::C(b) => {
                let v = b.slice(lo, w);
                self.mk(N::C(v), w)
            }
            N::Slice(b, l) => self.slice(b, l + lo, w),
            N::Concat(ps) => {
                let mut out = vec![];
                let mut pos = 0;
                for &p in ps.iter() {
                    let pw = self.width(p);
                    let (s, t) = (lo.max(pos), (lo + w).min(pos + pw));
                    if s < t {
                        let x = self.slice(p, s - pos, t - s);
                        out.push(x);
                    }
                    pos += pw;
                }
                self.concat(&out)
            }
            N::Not(x) => {
                let y = self.slice(x, lo, w);
                self.not(y)
            }
            N::BAnd(a, b) => {
                let (x, y) = (self.slice(a, lo, w), self.slice(b, lo, w));
                self.band(x, y)
            }
            N::BOr(a, b) => {
                let (x, y) = (self.slice(a, lo, w), self.slice(b, lo, w));
                self.bor(x, y)
            }
            N::Xor(a, b) => {
                let (x, y) = (self.slice(a, lo, w), self.slice(b, lo, w));
                self.xor(x, y)
            }
            N::Add(a, b) if lo == 0 => {
                let (x, y) = (self.slice(a, 0, w), self.slice(b, 0, w));
                self.add(x, y)
            }
            N::Mul(a, b) if lo == 0 => {
                let (x, y) = (self.slice(a, 0, w), self.slice(b, 0, w));
                self.bop(Bop::Mul, x, y)
            }
            N::Ite(c, a, b) => {
                let (x, y) = (self.slice(a, lo, w), self.slice(b, lo, w));
                if x == y || w < 8 || ew <= 64 || (self.is_const(x) && self.is_const(y)) {
                    self.ite(c, x, y)
                } else {
                    self.mk(N::Slice(e, lo), w)
                }
            }
            _ => self.mk(N::Slice(e, lo), w),
        };
        self.slice_memo.insert((e, lo, w), r);
        r
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.width(e);
        if ew == w {
            return e;
        }
        let z = self.c(0, w - ew);
        // constants wider than 128 bits also work: Big::from_u128(0, _)
        self.concat(&[e, z])
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.width(e);
        if ew == w {
            return e;
        }
        let s = self.slice(e, ew - 1, 1);
        let ones = self.ones(w - ew);
        let z = self.c(0, w - ew);
        let hi = self.ite(s, ones, z);
        self.concat(&[e, hi])
    }
    pub fn ones(&mut self, w: u32) -> E {
        let z = Big::from_u128(0, w).not(w);
        self.mk(N::C(z), w)
    }

    // ---------- booleans ----------
    pub fn not(&mut self, e: E) -> E {
        let w = self.width(e);
        match self.node(e).clone() {
            N::C(b) => {
                let v = b.not(w);
                self.mk(N::C(v), w)
            }
            N::Not(x) => x,
            N::Concat(ps) => {
                let v: Vec<E> = ps.iter().map(|p| self.not(*p)).collect();
                self.concat(&v)
            }
            N::Ite(c, a, b) if w > 1 && self.is_const(a) && self.is_const(b) => {
                let (x, y) = (self.not(a), self.not(b));
                self.ite(c, x, y)
            }
            _ => self.mk(N::Not(e), w),
        }
    }
    fn collect_and(&self, e: E, out: &mut Vec<E>) {
        if let N::And(ps) = self.node(e) {
            out.extend_from_slice(ps);
        } else {
            out.push(e);
        }
    }
    /// n-ary conjunction of width-1 terms
    pub fn and_all(&mut self, xs: &[E]) -> E {
        let mut v: Vec<E> = vec![];
        for &x in xs {
            debug_assert_eq!(self.width(x), 1);
            self.collect_and(x, &mut v);
        }
        loop {
            v.sort_unstable();
            v.dedup();
            if v.contains(&self.f) {
                return self.f;
            }
            let t = self.t;
            v.retain(|x| *x != t);
            if v.is_empty() {
                return self.t;
            }
            // complement
            for &x in &v {
                if let N::Not(y) = self.node(x) {
                    if v.binary_search(y).is_ok() {
                        return self.f;
                    }
                }
            }
            if v.len() == 1 {
                return v[0];
            }
            if v.len() >= 4 {
                if self.bits_conflict(&v) {
                    return self.f;
                }
                if self.join_ites(&mut v) || self.join_clauses(&mut v) || self.join_bytes(&mut v) {
                    continue;
                }
            }
            // unit propagation into disjunctions Not(And(M)) and Ite nodes; resolution of pairs
            let mut changed = false;
            if v.len() <= 64 {
                for i in 0..v.len() {
                    let x = v[i];
                    let inner = match self.node(x) {
                        N::Not(y) => match self.node(*y) {
                            N::And(m) => Some(m.clone()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(m) = inner {
                        let mut sat = false;
                        let mut keep = vec![];
                        for &l in m.iter() {
                            if v.binary_search(&l).is_ok() {
                                continue; // l is known true
                            }
                            let nl = self.not(l);
                            if v.binary_search(&nl).is_ok() {
                                sat = true;
                                break;
                            }
                            keep.push(l);
                        }
                        if sat {
                            v[i] = self.t;
                            changed = true;
                            break;
                        }
                        if keep.len() < m.len() {
                            let c = self.and_all(&keep);
                            v[i] = self.not(c);
                            let y = v[i];
                            // may itself be a conjunction
                            v.swap_remove(i);
                            self.collect_and(y, &mut v);
                            changed = true;
                            break;
                        }
                    } else {
                        let ite = match *self.node(x) {
                            N::Ite(c, a, b) => Some((c, a, b, false)),
                            N::Not(y) => match *self.node(y) {
                                N::Ite(c, a, b) => Some((c, a, b, true)),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some((c, a, b, neg)) = ite {
                            let nc = self.not(c);
                            let r = if v.binary_search(&c).is_ok() {
                                Some(a)
                            } else if v.binary_search(&nc).is_ok() {
                                Some(b)
                            } else {
                                None
                            };
                            if let Some(r) = r {
                                let r = if neg { self.not(r) } else { r };
                                v.swap_remove(i);
                                self.collect_and(r, &mut v);
                                changed = true;
                                break;
                            }
                        }
                    }
                }
            }
            if !changed && v.len() <= 12 {
                // resolution: Not(And(X+l)), Not(And(X+!l)) -> Not(And(X))
                'outer: for i in 0..v.len() {
                    for j in i + 1..v.len() {
                        if let Some(r) = self.resolve(v[i], v[j]) {
                            v.swap_remove(j);
                            v.swap_remove(i);
                            self.collect_and(r, &mut v);
                            changed = true;
                            break 'outer;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        self.mk(N::And(v.into()), 1)
    }
    /// Two of the literals fix one bit of a term differently.
    fn bits_conflict(&self, v: &[E]) -> bool {
        let mut known: FxMap<E, Vec<(u32, u32, Big)>> = FxMap::default();
        for &x in v {
            let (s, c) = match *self.node(x) {
                N::Slice(..) => (x, Big::from_u128(1, 1)),
                N::Not(y) => (y, Big::from_u128(0, 1)),
                N::Eq(p, q) => match (self.node(p), self.node(q)) {
                    (N::C(c), _) => (q, c.clone()),
                    (_, N::C(c)) => (p, c.clone()),
                    _ => continue,
                },
                _ => continue,
            };
            if let N::Slice(b, lo) = *self.node(s) {
                known.entry(b).or_default().push((lo, self.width(s), c));
            }
        }
        for g in known.values_mut() {
            g.sort_unstable_by_key(|r| (r.0, r.1));
            for i in 1..g.len() {
                // against the pieces before it that reach into it
                let (lo, w) = (g[i].0, g[i].1);
                for j in (0..i).rev().take(8) {
                    let (l2, w2) = (g[j].0, g[j].1);
                    let end = (l2 + w2).min(lo + w);
                    if end > lo && g[j].2.slice(lo - l2, end - lo) != g[i].2.slice(0, end - lo) {
                        return true;
                    }
                }
            }
        }
        false
    }
    /// Many clauses "not c, or x" with one c become "not c, or all of them".
    fn join_clauses(&mut self, v: &mut Vec<E>) -> bool {
        let short = |a: &Arena, x: E| match a.node(x) {
            N::Not(y) => match a.node(*y) {
                N::And(m) if m.len() <= 5 => Some(m.to_vec()),
                _ => None,
            },
            _ => None,
        };
        let without = |m: &[E], i: usize| -> Vec<E> {
            let mut r: Vec<E> = m.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, &e)| e).collect();
            r.sort_unstable();
            r
        };
        let mut count: FxMap<Vec<E>, u32> = FxMap::default();
        for &x in v.iter() {
            if let Some(m) = short(self, x) {
                for i in 0..m.len() {
                    *count.entry(without(&m, i)).or_default() += 1;
                }
            }
        }
        let best = match count.into_iter().filter(|(_, n)| *n >= 4).map(|(c, n)| (n, c)).max() {
            Some((_, c)) => c,
            None => return false,
        };
        let mut rest = vec![];
        let mut ps = vec![];
        for &x in v.iter() {
            let odd = short(self, x).and_then(|m| (0..m.len()).find(|&i| without(&m, i) == best).map(|i| m[i]));
            match odd {
                Some(o) => ps.push(self.not(o)),
                None => rest.push(x),
            }
        }
        let all = self.and_all(&ps);
        let n = self.not(all);
        let mut both = best;
        both.push(n);
        let both = self.and_all(&both);
        let e = self.not(both);
        *v = rest;
        self.collect_and(e, v);
        true
    }
    /// Many choices by the same condition become one.
    fn join_ites(&mut self, v: &mut Vec<E>) -> bool {
        let mut groups: FxMap<E, Vec<E>> = FxMap::default();
        for &x in v.iter() {
            if let N::Ite(c, ..) = *self.node(x) {
                groups.entry(c).or_default().push(x);
            }
        }
        let mut keys: Vec<E> = groups.iter().filter(|(_, g)| g.len() >= 4).map(|(c, _)| *c).collect();
        keys.sort_unstable();
        for c in &keys {
            let g = &groups[c];
            let (mut p, mut q) = (vec![], vec![]);
            for &x in g {
                if let N::Ite(_, a, b) = *self.node(x) {
                    p.push(a);
                    q.push(b);
                }
            }
            v.retain(|x| !g.contains(x));
            let p = self.and_all(&p);
            let q = self.and_all(&q);
            let e = self.ite(*c, p, q);
            self.collect_and(e, v);
        }
        !keys.is_empty()
    }
    /// Replaces equalities between neighbouring pieces of a hash and neighbouring pieces of another term
    /// (a loop over bytes) by one equality of the whole.
    fn join_bytes(&mut self, v: &mut Vec<E>) -> bool {
        let mut groups: FxMap<(E, Option<E>, i64), Vec<(u32, u32, E, E)>> = FxMap::default();
        for &x in v.iter() {
            if let N::Eq(p, q) = *self.node(x) {
                for (p, q) in [(p, q), (q, p)] {
                    if let N::Slice(b, lo) = *self.node(p) {
                        if !matches!(self.node(b), N::Hash(_)) {
                            continue;
                        }
                        let key = match *self.node(q) {
                            N::C(_) => (b, None, 0),
                            N::Slice(c, k) => (b, Some(c), lo as i64 - k as i64),
                            _ => continue,
                        };
                        let w = self.width(p);
                        groups.entry(key).or_default().push((lo, w, q, x));
                        break;
                    }
                }
            }
        }
        let mut did = false;
        let mut keys: Vec<_> = groups.keys().copied().collect();
        keys.sort_unstable();
        for key in keys {
            let mut g = groups.remove(&key).unwrap();
            g.sort_unstable();
            let mut i = 0;
            while i < g.len() {
                let mut j = i + 1;
                while j < g.len() && g[j].0 == g[j - 1].0 + g[j - 1].1 {
                    j += 1;
                }
                let (lo, end) = (g[i].0, g[j - 1].0 + g[j - 1].1);
                if j - i >= 4 && end - lo >= 32 {
                    let p = self.slice(key.0, lo, end - lo);
                    let parts: Vec<E> = g[i..j].iter().map(|r| r.2).collect();
                    let q = self.concat(&parts);
                    let e = self.eq(p, q);
                    v.retain(|x| !g[i..j].iter().any(|r| r.3 == *x));
                    self.collect_and(e, v);
                    did = true;
                }
                i = j;
            }
        }
        did
    }
    fn clause(&mut self, e: E) -> Option<Vec<E>> {
        // e = Not(And(M)) -> M ; any other e = Not(And([not e]))
        match self.node(e) {
            N::Not(y) => match self.node(*y) {
                N::And(m) => Some(m.to_vec()),
                _ => Some(vec![*y]),
            },
            _ => None,
        }
    }
    fn resolve(&mut self, a: E, b: E) -> Option<E> {
        let (m, n) = (self.clause(a)?, self.clause(b)?);
        if m.len() != n.len() || m.len() > 12 || m.len() < 2 {
            return None;
        }
        let mut dm: Vec<E> = m.iter().copied().filter(|x| !n.contains(x)).collect();
        let dn: Vec<E> = n.iter().copied().filter(|x| !m.contains(x)).collect();
        if dm.len() == 1 && dn.len() == 1 && self.not(dm[0]) == dn[0] {
            let l = dm.pop().unwrap();
            let rest: Vec<E> = m.iter().copied().filter(|x| *x != l).collect();
            let c = self.and_all(&rest);
            return Some(self.not(c));
        }
        None
    }
    pub fn or_all(&mut self, xs: &[E]) -> E {
        let v: Vec<E> = xs.iter().map(|x| self.not(*x)).collect();
        let a = self.and_all(&v);
        self.not(a)
    }
    pub fn and2(&mut self, a: E, b: E) -> E {
        self.and_all(&[a, b])
    }
    pub fn or2(&mut self, a: E, b: E) -> E {
        self.or_all(&[a, b])
    }

    // ---------- bitwise ----------
    fn parts_boundaries(&self, e: E, out: &mut Vec<u32>) -> bool {
        if let N::Concat(ps) = self.node(e) {
            let mut pos = 0;
            for p in ps.iter() {
                pos += self.width(*p);
                out.push(pos);
            }
            true
        } else if let N::C(b) = self.node(e) {
            let w = self.width(e);
            let mut last = b.bit(0);
            for i in 1..w {
                let x = b.bit(i);
                if x != last {
                    out.push(i);
                    last = x;
                }
            }
            out.push(w);
            true
        } else {
            false
        }
    }
    fn bitwise(&mut self, a: E, b: E, op: Bop) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let (N::C(x), N::C(y)) = (self.node(a), self.node(b)) {
            let v = match op {
                Bop::And => x.zip(y, |p, q| p & q),
                Bop::Or => x.zip(y, |p, q| p | q),
                _ => x.zip(y, |p, q| p ^ q),
            };
            return self.mk(N::C(v), w);
        }
        if a == b {
            return match op {
                Bop::Xor => self.zero(w),
                _ => a,
            };
        }
        if w == 1 {
            return match op {
                Bop::And => self.and2(a, b),
                Bop::Or => self.or2(a, b),
                _ => self.xor1(a, b),
            };
        }
        // whole-word constants
        for (k, x) in [(a, b), (b, a)] {
            if let N::C(c) = self.node(k) {
                if c.is_zero() {
                    return match op {
                        Bop::And => k,
                        _ => x,
                    };
                }
                if c.not(w).is_zero() {
                    return match op {
                        Bop::And => x,
                        Bop::Or => k,
                        _ => self.not(x),
                    };
                }
            }
        }
        // split
        let mut bs = vec![];
        let sa = self.parts_boundaries(a, &mut bs);
        let sb = self.parts_boundaries(b, &mut bs);
        if sa || sb {
            bs.sort_unstable();
            bs.dedup();
            if bs.len() > 1 && bs.len() <= 40 {
                let mut out = vec![];
                let mut lo = 0;
                for hi in bs {
                    let (x, y) = (self.slice(a, lo, hi - lo), self.slice(b, lo, hi - lo));
                    let r = self.bitwise(x, y, op);
                    out.push(r);
                    lo = hi;
                }
                return self.concat(&out);
            }
        }
        if let Some(r) = self.dist(a, b, op) {
            return r;
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        match op {
            Bop::And => self.mk(N::BAnd(x, y), w),
            Bop::Or => self.mk(N::BOr(x, y), w),
            _ => self.mk(N::Xor(x, y), w),
        }
    }
    pub fn zero(&mut self, w: u32) -> E {
        self.c(0, w)
    }
    fn xor1(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn band(&mut self, a: E, b: E) -> E {
        self.bitwise(a, b, Bop::And)
    }
    pub fn bor(&mut self, a: E, b: E) -> E {
        self.bitwise(a, b, Bop::Or)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        self.bitwise(a, b, Bop::Xor)
    }

    /// is `e` an ite tree over constants (small)?
    fn const_tree(&self, e: E, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        match self.node(e) {
            N::C(_) => true,
            N::Ite(_, a, b) => self.const_tree(*a, budget) && self.const_tree(*b, budget),
            _ => false,
        }
    }
    /// distribute op over ite-of-constants trees
    fn dist(&mut self, a: E, b: E, op: Bop) -> Option<E> {
        if self.is_const(b) {
            if let N::Ite(c, x, y) = *self.node(a) {
                if self.const_tree(a, &mut 600) {
                    let p = self.bop(op, x, b);
                    let q = self.bop(op, y, b);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        if self.is_const(a) {
            if let N::Ite(c, x, y) = *self.node(b) {
                if self.const_tree(b, &mut 600) {
                    let p = self.bop(op, a, x);
                    let q = self.bop(op, a, y);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        // both ite with the same condition and constant leaves
        if let (N::Ite(c, x, y), N::Ite(d, u, v)) = (self.node(a).clone(), self.node(b).clone()) {
            if c == d && self.is_const(x) && self.is_const(y) && self.is_const(u) && self.is_const(v) {
                let p = self.bop(op, x, u);
                let q = self.bop(op, y, v);
                return Some(self.ite(c, p, q));
            }
        }
        None
    }

    // ---------- arithmetic ----------
    pub fn add(&mut self, a: E, b: E) -> E {
        self.bop(Bop::Add, a, b)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.width(a);
        let n = self.not(a);
        let one = self.c(1, w);
        self.add(n, one)
    }
    /// Appends the addends of `e`; false when there are too many, or a constant among them.
    fn addends(&self, e: E, out: &mut Vec<E>) -> bool {
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            match self.node(x) {
                N::Add(p, q) => {
                    todo.push(*q);
                    todo.push(*p);
                }
                N::C(_) => return false,
                _ => out.push(x),
            }
            if out.len() > 100 {
                return false;
            }
        }
        true
    }
    /// (base, constant) decomposition of additions
    fn split_add(&self, e: E) -> (Option<E>, Big) {
        let w = self.width(e);
        match self.node(e) {
            N::C(b) => (None, b.clone()),
            N::Add(x, y) => {
                if let N::C(b) = self.node(*y) {
                    (Some(*x), b.clone())
                } else {
                    (Some(e), Big::from_u128(0, w))
                }
            }
            _ => (Some(e), Big::from_u128(0, w)),
        }
    }
    pub fn bop(&mut self, op: Bop, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{op:?}");
        match op {
            Bop::And | Bop::Or | Bop::Xor => return self.bitwise(a, b, op),
            Bop::Sub => {
                if a == b {
                    return self.zero(w);
                }
                if let Some(r) = self.dist(a, b, op) {
                    return r;
                }
                let n = self.neg(b);
                return self.add(a, n);
            }
            _ => {}
        }
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.as_u(a), self.as_u(b)) {
                return self.c(cbop(op, x, y, w), w);
            }
        }
        if let Some(r) = self.dist(a, b, op) {
            return r;
        }
        match op {
            Bop::Add => {
                let (xa, ca) = self.split_add(a);
                let (xb, cb) = self.split_add(b);
                let k = ca.add(&cb, w);
                match (xa, xb) {
                    (None, None) => self.cbig(k, w),
                    (Some(x), None) | (None, Some(x)) => {
                        if k.is_zero() {
                            return x;
                        }
                        // low zero bits of k: keep low part of x
                        let mut z = 0;
                        while z < w && !k.bit(z) {
                            z += 1;
                        }
                        // x = concat with constant-zero part that does not overlap k: treat as or
                        let kc = self.cbig(k.clone(), w);
                        if self.disjoint(x, kc) {
                            return self.bor(x, kc);
                        }
                        if z > 0 && matches!(self.node(x), N::Concat(_)) {
                            let lo = self.slice(x, 0, z);
                            let hi = self.slice(x, z, w - z);
                            let kh = self.cbig(k.slice(z, w - z), w - z);
                            let s = self.add(hi, kh);
                            return self.concat(&[lo, s]);
                        }
                        self.mk(N::Add(x, kc), w)
                    }
                    (Some(x), Some(y)) => {
                        if self.disjoint(x, y) {
                            let o = self.bor(x, y);
                            let kc = self.cbig(k, w);
                            return self.add(o, kc);
                        }
                        // a sorted sum in which x + not(x) has become -1
                        let mut v = vec![];
                        let (fx, fy) = (self.addends(x, &mut v), self.addends(y, &mut v));
                        let mut k = k;
                        let (x, y) = if fx && fy {
                            let mut i = 0;
                            while i < v.len() {
                                let n = self.not(v[i]);
                                if let Some(j) = (i + 1..v.len()).find(|j| v[*j] == n) {
                                    v.swap_remove(j);
                                    v.swap_remove(i);
                                    k = k.add(&Big::from_u128(0, w).not(w), w);
                                } else {
                                    i += 1;
                                }
                            }
                            v.sort_unstable();
                            if v.len() < 2 {
                                let kc = self.cbig(k, w);
                                return match v.first() {
                                    None => kc,
                                    Some(x) => self.add(*x, kc),
                                };
                            }
                            let mut s = v[0];
                            for t in &v[1..v.len() - 1] {
                                s = self.mk(N::Add(s, *t), w);
                            }
                            (s, *v.last().unwrap())
                        } else if x < y {
                            (x, y)
                        } else {
                            (y, x)
                        };
                        let s = self.mk(N::Add(x, y), w);
                        if k.is_zero() {
                            s
                        } else {
                            let kc = self.cbig(k, w);
                            self.mk(N::Add(s, kc), w)
                        }
                    }
                }
            }
            Bop::Shl => {
                if let Some(s) = self.as_u(b) {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.zero(w);
                    }
                    let s = s as u32;
                    let z = self.zero(s);
                    let lo = self.slice(a, 0, w - s);
                    return self.concat(&[z, lo]);
                }
                self.mk(N::Shl(a, b), w)
            }
            Bop::LShr => {
                if let Some(s) = self.as_u(b) {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.zero(w);
                    }
                    let s = s as u32;
                    let z = self.zero(s);
                    let hi = self.slice(a, s, w - s);
                    return self.concat(&[hi, z]);
                }
                self.mk(N::LShr(a, b), w)
            }
            Bop::AShr => {
                if let Some(s) = self.as_u(b) {
                    let s = s.min(w as u128 - 1) as u32;
                    let hi = self.slice(a, s, w - s);
                    return self.sext(hi, w);
                }
                self.mk(N::AShr(a, b), w)
            }
            Bop::Mul => {
                let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
                if let Some(k) = self.as_u(b) {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bop(Bop::Shl, a, s);
                    }
                    if k == mask128(u128::MAX, w) {
                        return self.neg(a);
                    }
                }
                self.mk(N::Mul(a, b), w)
            }
            Bop::UDiv => {
                if let Some(k) = self.as_u(b) {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bop(Bop::LShr, a, s);
                    }
                }
                self.mk(N::UDiv(a, b), w)
            }
            Bop::URem => {
                if let Some(k) = self.as_u(b) {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        let lo = self.slice(a, 0, s);
                        return self.zext(lo, w);
                    }
                }
                self.mk(N::URem(a, b), w)
            }
            Bop::SDiv => self.mk(N::SDiv(a, b), w),
            Bop::SRem => self.mk(N::SRem(a, b), w),
            _ => unreachable!(),
        }
    }
    /// cheap syntactic check: no bit can be one in both
    fn disjoint(&self, a: E, b: E) -> bool {
        let w = self.width(a);
        let za = self.zero_mask(a);
        let zb = self.zero_mask(b);
        if za.is_none() && zb.is_none() {
            return false;
        }
        for i in 0..limbs(w) {
            let x = za.as_ref().map_or(0, |z| z[i]) | zb.as_ref().map_or(0, |z| z[i]);
            let full = if i == limbs(w) - 1 && w % 64 != 0 { (1u64 << (w % 64)) - 1 } else { u64::MAX };
            if x & full != full {
                return false;
            }
        }
        true
    }
    /// mask of bits known to be zero
    fn zero_mask(&self, e: E) -> Option<Vec<u64>> {
        let w = self.width(e);
        match self.node(e) {
            N::C(b) => Some(b.0.iter().map(|x| !*x).collect()),
            N::Concat(ps) => {
                let mut m = vec![0u64; limbs(w)];
                let mut pos = 0;
                for p in ps.iter() {
                    let pw = self.width(*p);
                    if let N::C(b) = self.node(*p) {
                        for i in 0..pw {
                            if !b.bit(i) {
                                m[((pos + i) / 64) as usize] |= 1 << ((pos + i) % 64);
                            }
                        }
                    }
                    pos += pw;
                }
                Some(m)
            }
            _ => None,
        }
    }
    /// number of leading bits known to be zero
    fn lead_zeros(&self, e: E) -> u32 {
        if !matches!(self.node(e), N::Concat(_) | N::Ite(..)) {
            return self.lead_zeros_of(e);
        }
        if let Some(x) = self.bound_memo.borrow().0.get(&e) {
            return *x;
        }
        let x = self.lead_zeros_of(e);
        self.bound_memo.borrow_mut().0.insert(e, x);
        x
    }
    fn lead_zeros_of(&self, e: E) -> u32 {
        match self.node(e) {
            N::C(b) => {
                let w = self.width(e);
                let mut n = 0;
                while n < w && !b.bit(w - 1 - n) {
                    n += 1;
                }
                n
            }
            N::Concat(ps) => {
                let mut n = 0;
                for p in ps.iter().rev() {
                    let z = self.lead_zeros(*p);
                    n += z;
                    if z < self.width(*p) {
                        break;
                    }
                }
                n
            }
            N::Ite(_, a, b) => {
                if self.width(e) > 1 {
                    self.lead_zeros(*a).min(self.lead_zeros(*b))
                } else {
                    0
                }
            }
            _ => 0,
        }
    }
    pub fn upper_bound(&self, e: E) -> u128 {
        if !matches!(self.node(e), N::Add(..) | N::Ite(..)) {
            return self.upper_bound_of(e);
        }
        if let Some(x) = self.bound_memo.borrow().1.get(&e) {
            return *x;
        }
        let x = self.upper_bound_of(e);
        self.bound_memo.borrow_mut().1.insert(e, x);
        x
    }
    fn upper_bound_of(&self, e: E) -> u128 {
        // crude inclusive upper bound for w <= 128
        let w = self.width(e);
        match self.node(e) {
            N::C(b) => b.to_u128().unwrap_or(u128::MAX),
            N::Ite(_, a, b) => self.upper_bound(*a).max(self.upper_bound(*b)),
            N::Add(a, b) if w <= 100 => {
                let all = mask128(u128::MAX, w);
                let s = self.upper_bound(*a).saturating_add(self.upper_bound(*b));
                if s <= all {
                    s
                } else {
                    all
                }
            }
            _ => {
                let z = self.lead_zeros(e);
                mask128(u128::MAX, w - z.min(w))
            }
        }
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if a == b {
            return self.f;
        }
        if let (N::C(x), N::C(y)) = (self.node(a), self.node(b)) {
            let r = x.ult(y);
            return self.b(r);
        }
        if let N::C(y) = self.node(b) {
            if y.is_zero() {
                return self.f;
            }
            if y.to_u128() == Some(1) {
                let z = self.zero(w);
                return self.eq(a, z);
            }
        }
        if let N::C(x) = self.node(a) {
            if x.is_zero() {
                let z = self.zero(w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            if x.not(w).is_zero() {
                return self.f;
            }
        }
        if w == 1 {
            let n = self.not(a);
            return self.and2(n, b);
        }
        // a sum that cannot wrap is not below a part of it
        if w <= 100 && matches!(self.node(a), N::Add(..)) {
            let (mut u, mut v) = (vec![], vec![]);
            let (ba, ca) = self.split_add(a);
            let (bb, cb) = self.split_add(b);
            let within = match (ba, bb) {
                (Some(x), Some(y)) => self.addends(x, &mut u) && self.addends(y, &mut v),
                (Some(x), None) => self.addends(x, &mut u),
                _ => false,
            };
            if within && !ca.ult(&cb) {
                let mut total = ca.to_u128().unwrap_or(u128::MAX);
                for t in &u {
                    total = total.saturating_add(self.upper_bound(*t));
                }
                u.sort_unstable();
                v.sort_unstable();
                let mut i = 0;
                let sub = v.iter().all(|t| {
                    while i < u.len() && u[i] < *t {
                        i += 1;
                    }
                    i += 1;
                    i <= u.len() && u[i - 1] == *t
                });
                if sub && total <= mask128(u128::MAX, w) {
                    return self.f;
                }
            }
        }
        let z = self.lead_zeros(a).min(self.lead_zeros(b));
        if z > 0 && z < w {
            let (x, y) = (self.slice(a, 0, w - z), self.slice(b, 0, w - z));
            return self.ult(x, y);
        }
        if w <= 128 {
            if let Some(k) = self.as_u(b) {
                if self.upper_bound(a) < k {
                    return self.t;
                }
                // b = 2^j : a < 2^j  <=>  high bits zero
                if k.is_power_of_two() {
                    let j = k.trailing_zeros();
                    let hi = self.slice(a, j, w - j);
                    let z = self.zero(w - j);
                    return self.eq(hi, z);
                }
            }
            if let Some(k) = self.as_u(a) {
                if self.upper_bound(b) <= k {
                    return self.f;
                }
                if (k + 1).is_power_of_two() {
                    let j = (k + 1).trailing_zeros();
                    let hi = self.slice(b, j, w - j);
                    let z = self.zero(w - j);
                    let e = self.eq(hi, z);
                    return self.not(e);
                }
            }
        }
        if let Some(r) = self.dist_cmp(a, b, |s, x, y| s.ult(x, y)) {
            return r;
        }
        self.mk(N::Ult(a, b), 1)
    }
    fn dist_cmp(&mut self, a: E, b: E, f: impl Fn(&mut Arena, E, E) -> E + Copy) -> Option<E> {
        if self.is_const(b) {
            if let N::Ite(c, x, y) = *self.node(a) {
                if self.const_tree(a, &mut 600) {
                    let p = f(self, x, b);
                    let q = f(self, y, b);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        if self.is_const(a) {
            if let N::Ite(c, x, y) = *self.node(b) {
                if self.const_tree(b, &mut 600) {
                    let p = f(self, a, x);
                    let q = f(self, a, y);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        None
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if a == b {
            return self.f;
        }
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.as_u(a), self.as_u(b)) {
                let r = sext128(x, w) < sext128(y, w);
                return self.b(r);
            }
        }
        let sa = self.slice(a, w - 1, 1);
        let sb = self.slice(b, w - 1, 1);
        if sa == sb {
            return self.ult(a, b);
        }
        if self.is_const(sa) && self.is_const(sb) {
            return self.b(sa == self.t);
        }
        // x < 0
        if let Some(0) = self.as_u(b) {
            return sa;
        }
        if let Some(r) = self.dist_cmp(a, b, |s, x, y| s.slt(x, y)) {
            return r;
        }
        self.mk(N::Slt(a, b), 1)
    }

    // ---------- hash ----------
    pub fn hash(&mut self, msg: E) -> E {
        let w = self.width(msg);
        assert!(w % 8 == 0);
        if w == 0 {
            return self.cbig(Big::from_bytes(&EMPTY_SHA), 256);
        }
        self.mk(N::Hash(msg), 256)
    }

    // ---------- equality ----------
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t;
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.eq_memo.get(&(a, b)) {
            return *r;
        }
        let r = self.eq_raw(a, b, w);
        self.eq_memo.insert((a, b), r);
        r
    }
    fn eq_raw(&mut self, a: E, b: E, w: u32) -> E {
        self.rewrites += 1;
        let (na, nb) = (self.node(a).clone(), self.node(b).clone());
        if let (N::C(_), N::C(_)) = (&na, &nb) {
            return self.f; // distinct constants of equal width
        }
        if w == 1 {
            for (k, x) in [(a, b), (b, a)] {
                if k == self.t {
                    return x;
                }
                if k == self.f {
                    return self.not(x);
                }
            }
            if self.not(a) == b {
                return self.f;
            }
            // strip negations
            if let (N::Not(x), N::Not(y)) = (&na, &nb) {
                let (x, y) = (*x, *y);
                return self.eq(x, y);
            }
            if let N::Not(x) = na {
                let e = self.eq(x, b);
                return self.not(e);
            }
            if let N::Not(y) = nb {
                let e = self.eq(a, y);
                return self.not(e);
            }
            return self.mk(N::Eq(a, b), 1);
        }
        // hash / hash
        let ha = self.hash_slice(a);
        let hb = self.hash_slice(b);
        if let (Some((m, l)), Some((n, k))) = (ha, hb) {
            if l == k && w >= 64 {
                if self.width(m) != self.width(n) {
                    return self.f;
                }
                return self.eq(m, n);
            }
        }
        // hash / special constants
        for (h, k) in [(ha, b), (hb, a)] {
            if let Some((_, l)) = h {
                if w >= 64 {
                    if let N::C(c) = self.node(k) {
                        if c.is_zero() {
                            return self.f;
                        }
                        if *c == Big::from_bytes(&EMPTY_SHA).slice(l, w) {
                            return self.f;
                        }
                    }
                }
            }
        }
        // ite
        if let N::Ite(c, x, y) = na {
            // same-condition pairing
            if let N::Ite(d, u, v) = nb {
                if c == d {
                    let p = self.eq(x, u);
                    let q = self.eq(y, v);
                    return self.ite(c, p, q);
                }
            }
            let p = self.eq(x, b);
            let q = self.eq(y, b);
            return self.ite(c, p, q);
        }
        if let N::Ite(c, x, y) = nb {
            let p = self.eq(a, x);
            let q = self.eq(a, y);
            return self.ite(c, p, q);
        }
        // slice of ite
        for (s, o) in [(&na, b), (&nb, a)] {
            if let N::Slice(base, lo) = s {
                if let N::Ite(c, x, y) = *self.node(*base) {
                    let lo = *lo;
                    let x = self.slice(x, lo, w);
                    let y = self.slice(y, lo, w);
                    let p = self.eq(x, o);
                    let q = self.eq(y, o);
                    return self.ite(c, p, q);
                }
            }
        }
        // concat: split at boundaries
        if matches!(na, N::Concat(_)) || matches!(nb, N::Concat(_)) {
            let mut bs = vec![];
            for n in [&na, &nb] {
                if let N::Concat(ps) = n {
                    let mut pos = 0;
                    for p in ps.iter() {
                        pos += self.width(*p);
                        bs.push(pos);
                    }
                }
            }
            bs.sort_unstable();
            bs.dedup();
            let mut out = vec![];
            let mut lo = 0;
            // constants first: cheap refutation
            for hi in bs {
                let (x, y) = (self.slice(a, lo, hi - lo), self.slice(b, lo, hi - lo));
                lo = hi;
                if x != y {
                    out.push((x, y));
                }
            }
            for &(x, y) in &out {
                if self.is_const(x) && self.is_const(y) {
                    return self.f;
                }
            }
            let mut es = vec![];
            for (x, y) in out {
                let e = self.eq(x, y);
                if e == self.f {
                    return e;
                }
                es.push(e);
            }
            return self.and_all(&es);
        }
        if let N::Not(x) = na {
            if let N::Not(y) = nb {
                return self.eq(x, y);
            }
            if let N::C(c) = &nb {
                let k = c.not(w);
                let k = self.cbig(k, w);
                return self.eq(x, k);
            }
            if x == b {
                return self.f;
            }
        }
        if let N::Not(y) = nb {
            if let N::C(c) = &na {
                let k = c.not(w);
                let k = self.cbig(k, w);
                return self.eq(k, y);
            }
            if y == a {
                return self.f;
            }
        }
        // x + c = k ; x + c = x
        {
            let (xa, ca) = self.split_add(a);
            let (xb, cb) = self.split_add(b);
            if xa == xb {
                return self.b(ca == cb);
            }
            if xa != Some(a) || xb != Some(b) {
                // move constants to one side
                if xb.is_none() && xa.is_some() && xa != Some(a) {
                    let d = cb.add(&ca.not(w).add(&Big::from_u128(1, w), w), w);
                    let k = self.cbig(d, w);
                    return self.eq(xa.unwrap(), k);
                }
                if xa.is_none() && xb.is_some() && xb != Some(b) {
                    let d = ca.add(&cb.not(w).add(&Big::from_u128(1, w), w), w);
                    let k = self.cbig(d, w);
                    return self.eq(k, xb.unwrap());
                }
            }
        }
        // x ^ y = 0
        for (s, o) in [(&na, &nb), (&nb, &na)] {
            if let (N::Xor(x, y), N::C(k)) = (s, o) {
                if k.is_zero() {
                    return self.eq(*x, *y);
                }
            }
            if let (N::BOr(x, y), N::C(k)) = (s, o) {
                if k.is_zero() {
                    let (x, y) = (*x, *y);
                    let z = self.zero(w);
                    let p = self.eq(x, z);
                    let q = self.eq(y, z);
                    return self.and2(p, q);
                }
            }
        }
        self.mk(N::Eq(a, b), 1)
    }
    fn hash_slice(&self, e: E) -> Option<(E, u32)> {
        match self.node(e) {
            N::Hash(m) => Some((*m, 0)),
            N::Slice(b, lo) => match self.node(*b) {
                N::Hash(m) => Some((*m, *lo)),
                _ => None,
            },
            _ => None,
        }
    }

    // ---------- ite ----------
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if c == self.t {
            return a;
        }
        if c == self.f {
            return b;
        }
        if let N::Not(d) = *self.node(c) {
            return self.ite(d, b, a);
        }
        if let Some(r) = self.ite_memo.get(&(c, a, b)) {
            return *r;
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let key = (c, a, b);
        let mut a = a;
        let mut b = b;
        if let N::Ite(d, x, _) = *self.node(a) {
            if d == c {
                a = x;
            }
        }
        if let N::Ite(d, _, y) = *self.node(b) {
            if d == c {
                b = y;
            }
        }
        let r = if a == b {
            a
        } else if w == 1 {
            if a == self.t || a == c {
                if b == self.f {
                    c
                } else {
                    self.or2(c, b)
                }
            } else if a == self.f {
                let n = self.not(c);
                self.and2(n, b)
            } else if b == self.f || b == c {
                self.and2(c, a)
            } else if b == self.t {
                let n = self.not(c);
                self.or2(n, a)
            } else if self.not(a) == b {
                self.eq(c, a)
            } else {
                self.mk(N::Ite(c, a, b), 1)
            }
        } else {
            // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
            if let N::Ite(d, x, y) = *self.node(b) {
                if x == a {
                    let o = self.or2(c, d);
                    let r = self.ite(o, a, y);
                    self.ite_memo.insert(key, r);
                    return r;
                }
                if y == a {
                    // ite(c, y, ite(d, x, y)) = ite(!c & d, x, y)
                    let nc = self.not(c);
                    let o = self.and2(nc, d);
                    let r = self.ite(o, x, y);
                    self.ite_memo.insert(key, r);
                    return r;
                }
            }
            if let N::Ite(d, x, y) = *self.node(a) {
                if y == b {
                    // ite(c, ite(d,x,y), y) = ite(c&d, x, y)
                    let o = self.and2(c, d);
                    let r = self.ite(o, x, y);
                    self.ite_memo.insert(key, r);
                    return r;
                }
                if x == b {
                    // ite(c, ite(d,x,y), x) = ite(c & !d, y, x)
                    let nd = self.not(d);
                    let o = self.and2(c, nd);
                    let r = self.ite(o, y, x);
                    self.ite_memo.insert(key, r);
                    return r;
                }
            }
            self.mk(N::Ite(c, a, b), w)
        };
        self.ite_memo.insert(key, r);
        r
    }

    // ---------- generic helpers ----------
    pub fn children(&self, e: E, f: &mut dyn FnMut(E)) {
        match self.node(e) {
            N::C(_) | N::Var(_) => {}
            N::Concat(p) | N::And(p) => p.iter().for_each(|x| f(*x)),
            N::Slice(x, _) | N::Hash(x) | N::Not(x) => f(*x),
            N::BAnd(a, b)
            | N::BOr(a, b)
            | N::Xor(a, b)
            | N::Add(a, b)
            | N::Mul(a, b)
            | N::UDiv(a, b)
            | N::URem(a, b)
            | N::SDiv(a, b)
            | N::SRem(a, b)
            | N::Shl(a, b)
            | N::LShr(a, b)
            | N::AShr(a, b)
            | N::Eq(a, b)
            | N::Ult(a, b)
            | N::Slt(a, b) => {
                f(*a);
                f(*b)
            }
            N::Ite(c, a, b) => {
                f(*c);
                f(*a);
                f(*b)
            }
        }
    }

    /// Simplify under known facts: boolean terms with known value and terms equal to constants.
    pub fn simp(&mut self, e: E, lits: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
        if lits.is_empty() {
            return e;
        }
        if let Some(v) = lits.get(&e) {
            return *v;
        }
        match self.node(e) {
            N::C(_) | N::Var(_) | N::Hash(_) => return e,
            _ => {}
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = self.width(e);
        macro_rules! two {
            ($a:expr, $b:expr, $f:expr) => {{
                let (x, y) = (self.simp($a, lits, memo), self.simp($b, lits, memo));
                if x == $a && y == $b {
                    e
                } else {
                    $f(self, x, y)
                }
            }};
        }
        let r = match self.node(e).clone() {
            N::Not(x) => {
                let y = self.simp(x, lits, memo);
                if y == x {
                    e
                } else {
                    self.not(y)
                }
            }
            N::And(ps) => {
                let mut v = Vec::with_capacity(ps.len());
                let mut fls = false;
                for &p in ps.iter() {
                    let q = self.simp(p, lits, memo);
                    if q == self.f {
                        fls = true;
                        break;
                    }
                    v.push(q);
                }
                if fls {
                    self.f
                } else if v[..] == ps[..] {
                    e
                } else {
                    self.and_all(&v)
                }
            }
            N::Ite(c, a, b) => {
                let d = self.simp(c, lits, memo);
                if d == self.t {
                    self.simp(a, lits, memo)
                } else if d == self.f {
                    self.simp(b, lits, memo)
                } else {
                    let x = self.simp(a, lits, memo);
                    let y = self.simp(b, lits, memo);
                    let mut r = if d == c && x == a && y == b { e } else { self.ite(d, x, y) };
                    // building it may have joined conditions into one that is known
                    while let N::Ite(c2, x2, y2) = *self.node(r) {
                        match lits.get(&c2) {
                            Some(v) if *v == self.t => r = x2,
                            Some(v) if *v == self.f => r = y2,
                            _ => break,
                        }
                    }
                    r
                }
            }
            N::Concat(ps) => {
                let v: Vec<E> = ps.iter().map(|p| self.simp(*p, lits, memo)).collect();
                if v[..] == ps[..] {
                    e
                } else {
                    self.concat(&v)
                }
            }
            N::Slice(x, lo) => {
                let y = self.simp(x, lits, memo);
                if y == x {
                    e
                } else {
                    self.slice(y, lo, w)
                }
            }
            N::Eq(a, b) => two!(a, b, |s: &mut Arena, x, y| s.eq(x, y)),
            N::Ult(a, b) => two!(a, b, |s: &mut Arena, x, y| s.ult(x, y)),
            N::Slt(a, b) => two!(a, b, |s: &mut Arena, x, y| s.slt(x, y)),
            N::Add(a, b) => two!(a, b, |s: &mut Arena, x, y| s.add(x, y)),
            N::BAnd(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::And, x, y)),
            N::BOr(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::Or, x, y)),
            N::Xor(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::Xor, x, y)),
            N::Mul(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::Mul, x, y)),
            N::UDiv(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::UDiv, x, y)),
            N::URem(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::URem, x, y)),
            N::SDiv(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::SDiv, x, y)),
            N::SRem(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::SRem, x, y)),
            N::Shl(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::Shl, x, y)),
            N::LShr(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::LShr, x, y)),
            N::AShr(a, b) => two!(a, b, |s: &mut Arena, x, y| s.bop(Bop::AShr, x, y)),
            _ => e,
        };
        let r = match lits.get(&r) {
            Some(v) => *v,
            None => r,
        };
        memo.insert(e, r);
        r
    }

    /// A term as text, down to a depth.
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return format!("#{e}:{}", self.width(e));
        }
        let j = |v: &[E]| v.iter().map(|x| self.show(*x, depth - 1)).collect::<Vec<_>>().join(" ");
        match self.node(e) {
            N::C(b) => format!("{}:{}", b.to_u128().map(|x| format!("{x:x}")).unwrap_or("big".into()), self.width(e)),
            N::Var(i) => self.vars[*i as usize].name.clone(),
            N::Slice(x, lo) => format!("{}[{lo}+{}]", self.show(*x, depth - 1), self.width(e)),
            n => {
                let mut v = vec![];
                self.children(e, &mut |c| v.push(c));
                let d = format!("{n:?}");
                let name: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
                format!("({name}#{e} {})", j(&v))
            }
        }
    }

    /// Evaluate under a full assignment of variables with the real SHA-256.
    pub fn eval(&self, e: E, env: &dyn Fn(u32) -> Big, memo: &mut FxMap<E, Big>) -> Big {
        // iterative post-order to survive deep terms
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            if !done {
                stack.push((x, true));
                self.children(x, &mut |c| {
                    if !memo.contains_key(&c) {
                        stack.push((c, false))
                    }
                });
                continue;
            }
            let w = self.width(x);
            let g = |e: &E| memo.get(e).unwrap();
            let u = |e: &E| memo.get(e).unwrap().to_u128().expect("wide arithmetic");
            let bin = |op: Bop, a: &E, b: &E| Big::from_u128(cbop(op, u(a), u(b), w), w);
            let bool_ = |v: bool| Big::from_u128(v as u128, 1);
            let v = match self.node(x) {
                N::C(b) => b.clone(),
                N::Var(i) => env(*i),
                N::Concat(ps) => {
                    let mut acc = g(&ps[0]).clone();
                    let mut aw = self.width(ps[0]);
                    for p in ps.iter().skip(1) {
                        let pw = self.width(*p);
                        acc = acc.concat(aw, g(p), pw);
                        aw += pw;
                    }
                    acc
                }
                N::Slice(b, lo) => g(b).slice(*lo, w),
                N::Hash(m) => {
                    let bytes = g(m).to_bytes(self.width(*m));
                    Big::from_bytes(&crate::sha256::sha256(&bytes))
                }
                N::Not(a) => g(a).not(w),
                N::And(ps) => bool_(ps.iter().all(|p| !g(p).is_zero())),
                N::BAnd(a, b) => g(a).zip(g(b), |p, q| p & q),
                N::BOr(a, b) => g(a).zip(g(b), |p, q| p | q),
                N::Xor(a, b) => g(a).zip(g(b), |p, q| p ^ q),
                N::Add(a, b) => g(a).add(g(b), w),
                N::Mul(a, b) => bin(Bop::Mul, a, b),
                N::UDiv(a, b) => bin(Bop::UDiv, a, b),
                N::URem(a, b) => bin(Bop::URem, a, b),
                N::SDiv(a, b) => bin(Bop::SDiv, a, b),
                N::SRem(a, b) => bin(Bop::SRem, a, b),
                N::Shl(a, b) => bin(Bop::Shl, a, b),
                N::LShr(a, b) => bin(Bop::LShr, a, b),
                N::AShr(a, b) => bin(Bop::AShr, a, b),
                N::Eq(a, b) => bool_(g(a) == g(b)),
                N::Ult(a, b) => bool_(g(a).ult(g(b))),
                N::Slt(a, b) => {
                    let aw = self.width(*a);
                    bool_(sext128(u(a), aw) < sext128(u(b), aw))
                }
                N::Ite(c, a, b) => {
                    if g(c).is_zero() {
                        g(b).clone()
                    } else {
                        g(a).clone()
                    }
                }
            };
            self.evaluated.set(self.evaluated.get() + v.0.len() + 4);
            memo.insert(x, v);
        }
        memo.get(&e).unwrap().clone()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// Conjunctions keep their value under every rewriting.
    #[test]
    fn conjunctions() {
        let mut x = 88172645463325252u64;
        let mut rnd = move |n: u64| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x % n
        };
        let (mut yes, mut no) = (0, 0);
        for round in 0..6000 {
            let mut a = Arena::new();
            let m = a.var("m", 64);
            let g = a.var("g", 256);
            let c = [a.var("c", 1), a.var("d", 1)];
            let h = a.hash(m);
            let mv = Big::from_u128(rnd(1 << 40) as u128, 64);
            let cv = [rnd(2), rnd(2)];
            let hv = a.eval(h, &|_| mv.clone(), &mut FxMap::default());
            let gv = if rnd(2) == 0 {
                hv.clone()
            } else {
                (1..4).fold(Big::from_u128(rnd(1 << 60) as u128, 64), |b, k| b.concat(64 * k, &Big::from_u128(rnd(1 << 60) as u128, 64), 64))
            };
            let env = |i: u32| match i {
                0 => mv.clone(),
                1 => gv.clone(),
                i => Big::from_u128(cv[i as usize - 2] as u128, 1),
            };
            let mut v = vec![];
            let bytewise = rnd(2) == 0;
            let from = rnd(20) as u32;
            let wrong = if rnd(2) == 0 { 40 } else { rnd(40) };
            for k in 0..8 + rnd(24) {
                let lo = if bytewise { ((from + k as u32) % 32) * 8 } else { rnd(248) as u32 };
                let w = if bytewise || rnd(3) > 0 { 8 } else { 1 + rnd(8) as u32 };
                let (base, bv) = if bytewise || rnd(2) == 0 { (h, &hv) } else { (g, &gv) };
                let s = a.slice(base, lo, w);
                let kind = if bytewise { round % 5 } else { rnd(5) };
                let val = if k == wrong { Big::from_u128(rnd(1 << w) as u128, w) } else { bv.slice(lo, w) };
                let cst = a.cbig(val, w);
                let mut l = a.eq(s, cst);
                if kind == 1 {
                    let o = a.slice(g, lo, w);
                    l = a.eq(s, o);
                } else if kind == 2 {
                    let n = a.not(l);
                    let b = a.and2(c[0], n);
                    l = a.not(b);
                } else if kind == 3 {
                    let o = a.slice(g, lo, w);
                    let p = a.eq(s, o);
                    l = a.ite(c[rnd(2) as usize], l, p);
                } else if kind == 4 && rnd(8) == 0 {
                    l = a.not(l);
                }
                v.push(l);
            }
            let want = v.iter().all(|l| a.eval(*l, &env, &mut FxMap::default()).bit(0));
            let e = a.and_all(&v);
            assert_eq!(a.eval(e, &env, &mut FxMap::default()).bit(0), want, "round {round}");
            if want {
                yes += 1
            } else {
                no += 1
            }
        }
        assert!(yes > 500 && no > 500, "{yes} {no}");
    }
}
