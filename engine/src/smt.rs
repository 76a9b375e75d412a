//! SMT back end: one `z3 -in` process per arena, bit-vector logic.
//!
//! Ideal-hash terms become free 256-bit constants. For every query the set of hash terms that are
//! visible in it (not below another hash) is closed under the pairwise axioms
//! `h_i = h_j <=> m_i = m_j`, `h_i != 0`, `h_i != SHA256("")`.

use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub type Model = FxMap<u32, Big>; // var index -> value

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub fast: u64,
    pub time: Duration,
    pub max: Duration,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.cached += o.cached;
        self.fast += o.fast;
        self.time += o.time;
        self.max = self.max.max(o.max);
    }
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// An assignment that satisfied an earlier query. Hash values in it are those of SHA-256, so a
/// conjunction that holds under it is satisfiable.
struct Known {
    vals: Model,
    salt: u64,
    memo: FxMap<E, Big>,
    words: usize,
}
const KNOWN: usize = 16;
impl Known {
    fn holds(&mut self, a: &Arena, ls: &[E]) -> bool {
        if self.words > 4_000_000 {
            self.memo.clear();
            self.words = 0;
        }
        let before = a.evaluated.get();
        let (vals, salt) = (&self.vals, self.salt);
        let env = |i: u32| match vals.get(&i) {
            Some(v) => v.clone(),
            None => {
                // some value of its own
                let w = a.vars[i as usize].w;
                let mut x = salt ^ (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                let b: Vec<u8> = (0..(w as usize + 7) / 8)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        (x >> 24) as u8
                    })
                    .collect();
                let v = Big::from_bytes(&b);
                if v.0.len() != (w as usize + 63) / 64 || w % 8 != 0 {
                    v.slice(0, w)
                } else {
                    v
                }
            }
        };
        let memo = &mut self.memo;
        let r = ls.iter().all(|l| !a.eval(*l, &env, memo).is_zero());
        self.words += a.evaluated.get() - before;
        r
    }
}

/// bit ranges of variables a term depends on; var id u32::MAX stands for "a visible hash value"
pub type Sup = Rc<Vec<(u32, u32, u32)>>;

pub struct Solver {
    p: Option<Proc>,
    pub cmd: Vec<String>,
    pub timeout_ms: u64,
    defined: FxSet<E>,
    buf: String,
    cache: HashMap<Vec<E>, Sat>,
    sup: FxMap<E, Sup>,
    vis: FxMap<E, Rc<Vec<E>>>,
    axs: FxMap<(E, E), E>,
    known: Vec<Known>,
    pub stats: Stats,
    pub dump: Option<std::fs::File>,
}

fn merge_ranges(v: &mut Vec<(u32, u32, u32)>) {
    v.sort_unstable();
    let mut o: Vec<(u32, u32, u32)> = Vec::with_capacity(v.len());
    for &(a, l, h) in v.iter() {
        if let Some(x) = o.last_mut() {
            if x.0 == a && l <= x.2 {
                x.2 = x.2.max(h);
                continue;
            }
        }
        o.push((a, l, h));
    }
    *v = o;
}
pub fn overlap(a: &[(u32, u32, u32)], b: &[(u32, u32, u32)]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        let (x, y) = (a[i], b[j]);
        if x.0 == y.0 && x.1 < y.2 && y.1 < x.2 {
            return true;
        }
        if (x.0, x.2) < (y.0, y.2) {
            i += 1
        } else {
            j += 1
        }
    }
    false
}

impl Solver {
    pub fn new(cmd: Vec<String>, timeout_ms: u64) -> Solver {
        Solver {
            p: None,
            cmd,
            timeout_ms,
            defined: Default::default(),
            buf: String::new(),
            cache: HashMap::new(),
            sup: Default::default(),
            vis: Default::default(),
            axs: Default::default(),
            known: vec![],
            stats: Default::default(),
            dump: None,
        }
    }
    fn start(&mut self) {
        if self.p.is_some() {
            return;
        }
        let mut child = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.p = Some(Proc { child, inp, out });
        self.defined.clear();
        self.buf.clear();
        let is_z3 = self.cmd[0].contains("z3");
        if is_z3 {
            self.buf.push_str(&format!("(set-option :timeout {})\n", self.timeout_ms));
        }
        self.buf.push_str("(set-option :produce-models true)\n(set-logic QF_BV)\n");
    }
    fn send(&mut self) {
        let p = self.p.as_mut().unwrap();
        if let Some(d) = &mut self.dump {
            let _ = d.write_all(self.buf.as_bytes());
        }
        if p.inp.write_all(self.buf.as_bytes()).is_err() || p.inp.flush().is_err() {
            panic!("SMT solver pipe closed");
        }
        self.buf.clear();
    }
    fn line(&mut self) -> String {
        let p = self.p.as_mut().unwrap();
        let mut s = String::new();
        let n = p.out.read_line(&mut s).unwrap_or(0);
        if n == 0 {
            panic!("SMT solver exited");
        }
        s.trim().to_string()
    }

    // ---------------------------------------------------------------- term printing
    fn is_bool(a: &Arena, e: E) -> bool {
        a.width(e) == 1
            && matches!(a.node(e), N::Not(_) | N::And(_) | N::Eq(..) | N::Ult(..) | N::Slt(..) | N::Ite(..) | N::Xor(..))
    }
    fn cname(b: &Big, w: u32) -> String {
        if w % 4 == 0 {
            let by = b.to_bytes(w);
            let mut s = String::from("#x");
            let nib = (w / 4) as usize;
            for i in (0..nib).rev() {
                let v = (by[i / 2] >> (4 * (i % 2))) & 15;
                s.push(char::from_digit(v as u32, 16).unwrap());
            }
            s
        } else {
            let mut s = String::from("#b");
            for i in (0..w).rev() {
                s.push(if b.bit(i) { '1' } else { '0' });
            }
            s
        }
    }
    fn bv(a: &Arena, e: E) -> String {
        match a.node(e) {
            N::C(b) => Self::cname(b, a.width(e)),
            _ if Self::is_bool(a, e) => format!("(ite n{e} #b1 #b0)"),
            _ => format!("n{e}"),
        }
    }
    fn bl(a: &Arena, e: E) -> String {
        if e == a.t {
            return "true".into();
        }
        if e == a.f {
            return "false".into();
        }
        if Self::is_bool(a, e) {
            format!("n{e}")
        } else {
            format!("(= n{e} #b1)")
        }
    }
    fn define(&mut self, a: &Arena, root: E) {
        let mut st = vec![(root, false)];
        while let Some((e, done)) = st.pop() {
            if self.defined.contains(&e) {
                continue;
            }
            let n = a.node(e);
            if matches!(n, N::C(_)) {
                continue;
            }
            if !done {
                st.push((e, true));
                if !matches!(n, N::Hash(_)) {
                    a.children(e, &mut |c| {
                        if !self.defined.contains(&c) {
                            st.push((c, false))
                        }
                    });
                }
                continue;
            }
            let w = a.width(e);
            self.defined.insert(e);
            let b2 = |op: &str, x: E, y: E| format!("({op} {} {})", Self::bv(a, x), Self::bv(a, y));
            let body = match n {
                N::C(_) => unreachable!(),
                N::Var(_) | N::Hash(_) => {
                    self.buf.push_str(&format!("(declare-const n{e} (_ BitVec {w}))\n"));
                    continue;
                }
                N::Concat(ps) => {
                    let mut s = String::from("(concat");
                    for p in ps.iter().rev() {
                        s.push(' ');
                        s.push_str(&Self::bv(a, *p));
                    }
                    s.push(')');
                    s
                }
                N::Slice(b, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, Self::bv(a, *b)),
                N::Not(x) => {
                    if w == 1 {
                        format!("(not {})", Self::bl(a, *x))
                    } else {
                        format!("(bvnot {})", Self::bv(a, *x))
                    }
                }
                N::And(ps) => {
                    let mut s = String::from("(and");
                    for p in ps.iter() {
                        s.push(' ');
                        s.push_str(&Self::bl(a, *p));
                    }
                    s.push(')');
                    s
                }
                N::BAnd(x, y) => b2("bvand", *x, *y),
                N::BOr(x, y) => b2("bvor", *x, *y),
                N::Xor(x, y) => {
                    if w == 1 {
                        format!("(xor {} {})", Self::bl(a, *x), Self::bl(a, *y))
                    } else {
                        b2("bvxor", *x, *y)
                    }
                }
                N::Add(x, y) => b2("bvadd", *x, *y),
                N::Mul(x, y) => b2("bvmul", *x, *y),
                N::UDiv(x, y) => b2("bvudiv", *x, *y),
                N::URem(x, y) => b2("bvurem", *x, *y),
                N::SDiv(x, y) => b2("bvsdiv", *x, *y),
                N::SRem(x, y) => b2("bvsrem", *x, *y),
                N::Shl(x, y) => b2("bvshl", *x, *y),
                N::LShr(x, y) => b2("bvlshr", *x, *y),
                N::AShr(x, y) => b2("bvashr", *x, *y),
                N::Eq(x, y) => {
                    if a.width(*x) == 1 {
                        format!("(= {} {})", Self::bl(a, *x), Self::bl(a, *y))
                    } else {
                        b2("=", *x, *y)
                    }
                }
                N::Ult(x, y) => b2("bvult", *x, *y),
                N::Slt(x, y) => b2("bvslt", *x, *y),
                N::Ite(c, x, y) => {
                    if w == 1 {
                        format!("(ite {} {} {})", Self::bl(a, *c), Self::bl(a, *x), Self::bl(a, *y))
                    } else {
                        format!("(ite {} {} {})", Self::bl(a, *c), Self::bv(a, *x), Self::bv(a, *y))
                    }
                }
            };
            let sort = if Self::is_bool(a, e) { "Bool".to_string() } else { format!("(_ BitVec {w})") };
            self.buf.push_str(&format!("(define-fun n{e} () {sort} {body})\n"));
        }
    }

    // ---------------------------------------------------------------- support and visible hashes
    pub fn support(&mut self, a: &Arena, e: E) -> Sup {
        if let Some(s) = self.sup.get(&e) {
            return s.clone();
        }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.sup.contains_key(&x) {
                continue;
            }
            let w = a.width(x);
            let n = a.node(x);
            match n {
                N::C(_) => {
                    self.sup.insert(x, Rc::new(vec![]));
                    continue;
                }
                N::Var(i) => {
                    self.sup.insert(x, Rc::new(vec![(*i, 0, w)]));
                    continue;
                }
                N::Slice(b, lo) => {
                    if let N::Var(i) = a.node(*b) {
                        self.sup.insert(x, Rc::new(vec![(*i, *lo, lo + w)]));
                        continue;
                    }
                }
                _ => {}
            }
            if !done {
                st.push((x, true));
                a.children(x, &mut |c| st.push((c, false)));
                continue;
            }
            let mut v: Vec<(u32, u32, u32)> = vec![];
            a.children(x, &mut |c| v.extend_from_slice(&self.sup[&c]));
            if matches!(n, N::Hash(_)) {
                v.push((u32::MAX, 0, 1));
            }
            merge_ranges(&mut v);
            self.sup.insert(x, Rc::new(v));
        }
        self.sup[&e].clone()
    }
    fn visible(&mut self, a: &Arena, e: E) -> Rc<Vec<E>> {
        if let Some(s) = self.vis.get(&e) {
            return s.clone();
        }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.vis.contains_key(&x) {
                continue;
            }
            if let N::Hash(_) = a.node(x) {
                self.vis.insert(x, Rc::new(vec![x]));
                continue;
            }
            if !done {
                st.push((x, true));
                a.children(x, &mut |c| st.push((c, false)));
                continue;
            }
            let mut v: Vec<E> = vec![];
            a.children(x, &mut |c| v.extend_from_slice(&self.vis[&c]));
            v.sort_unstable();
            v.dedup();
            self.vis.insert(x, Rc::new(v));
        }
        self.vis[&e].clone()
    }
    /// all visible hashes of the query, closed under the axioms, and the axiom terms
    fn axioms(&mut self, a: &mut Arena, lits: &[E]) -> (Vec<E>, Vec<E>) {
        let mut hs: Vec<E> = vec![];
        let mut seen: FxSet<E> = Default::default();
        let mut todo: Vec<E> = lits.to_vec();
        let mut out: Vec<E> = vec![];
        while let Some(t) = todo.pop() {
            for &h in self.visible(a, t).iter() {
                if !seen.insert(h) {
                    continue;
                }
                let N::Hash(m) = *a.node(h) else { unreachable!() };
                for &g in hs.iter() {
                    let N::Hash(k) = *a.node(g) else { unreachable!() };
                    let q = if a.width(m) != a.width(k) { a.f } else { a.eq(m, k) };
                    if self.axs.insert((g, h), q).is_none() {}
                    todo.push(q);
                    out.push(q);
                    out.push(g);
                    out.push(h);
                }
                hs.push(h);
            }
        }
        (hs, out)
    }

    pub fn check(&mut self, a: &mut Arena, lits: &[E]) -> Sat {
        self.check_model(a, lits, None)
    }
    /// satisfiability of the conjunction; on Sat fills in a model when asked to
    pub fn check_model(&mut self, a: &mut Arena, lits: &[E], model: Option<&mut Model>) -> Sat {
        let mut ls: Vec<E> = lits.iter().copied().filter(|x| *x != a.t).collect();
        ls.sort_unstable();
        ls.dedup();
        if ls.contains(&a.f) {
            return Sat::Unsat;
        }
        if ls.is_empty() && model.is_none() {
            return Sat::Sat;
        }
        if model.is_none() {
            if let Some(r) = self.cache.get(&ls) {
                self.stats.cached += 1;
                return *r;
            }
        }
        if model.is_none() {
            for k in 0..self.known.len() {
                if self.known[k].holds(a, &ls) {
                    self.stats.fast += 1;
                    let x = self.known.remove(k);
                    self.known.insert(0, x);
                    self.cache.insert(ls, Sat::Sat);
                    return Sat::Sat;
                }
            }
        }
        let t0 = Instant::now();
        let mut want: Vec<E> = vec![];
        let r = if model.is_some() {
            self.raw(a, &ls, model, &mut want, None)
        } else {
            let mut m: Model = Default::default();
            let r = self.raw(a, &ls, Some(&mut m), &mut want, None);
            if r == Sat::Sat {
                self.known.truncate(KNOWN - 1);
                let salt = (self.stats.queries + 1).wrapping_mul(0x5851_F42D_4C95_7F2D) | 1;
                self.known.insert(0, Known { vals: m, salt, memo: Default::default(), words: 0 });
            }
            r
        };
        let dt = t0.elapsed();
        self.stats.queries += 1;
        self.stats.time += dt;
        self.stats.max = self.stats.max.max(dt);
        match r {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(ls, r);
        r
    }
    /// A value of `e` in some model of the literals.
    pub fn value(&mut self, a: &mut Arena, lits: &[E], e: E) -> (Sat, Option<Big>) {
        let t0 = Instant::now();
        let mut w = vec![e];
        let mut v = None;
        let ls: Vec<E> = lits.iter().copied().filter(|x| *x != a.t).collect();
        let r = self.raw(a, &ls, None, &mut w, Some(&mut v));
        let dt = t0.elapsed();
        self.stats.queries += 1;
        self.stats.time += dt;
        self.stats.max = self.stats.max.max(dt);
        match r {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        (r, v)
    }
    fn raw(&mut self, a: &mut Arena, ls: &[E], model: Option<&mut Model>, want: &mut Vec<E>, val: Option<&mut Option<Big>>) -> Sat {
        self.start();
        let mut all: Vec<E> = ls.to_vec();
        all.extend_from_slice(want);
        let (hs, ax) = self.axioms(a, &all);
        let (hs2, ax2) = (hs.clone(), ax.clone());
        let ar: &Arena = a;
        for &l in all.iter() {
            self.define(ar, l);
        }
        for &l in ax2.iter() {
            self.define(ar, l);
        }
        self.buf.push_str("(push 1)\n");
        for &h in hs2.iter() {
            let z = format!("#x{}", "0".repeat(64));
            let emp = Self::cname(&Big::from_bytes(&EMPTY_SHA), 256);
            self.buf.push_str(&format!("(assert (not (= n{h} {z})))(assert (not (= n{h} {emp})))\n"));
        }
        for c in ax2.chunks(3) {
            self.buf.push_str(&format!("(assert (= (= n{} n{}) {}))\n", c[1], c[2], Self::bl(ar, c[0])));
        }
        for &l in ls {
            self.buf.push_str(&format!("(assert {})\n", Self::bl(ar, l)));
        }
        self.buf.push_str("(check-sat)\n");
        self.send();
        let r = loop {
            let s = self.line();
            match s.as_str() {
                "sat" => break Sat::Sat,
                "unsat" => break Sat::Unsat,
                "unknown" | "timeout" => break Sat::Unknown,
                "" => continue,
                _ => panic!("SMT solver said: {s}"),
            }
        };
        if r == Sat::Sat {
            if let Some(v) = val {
                let e = want[0];
                // the text starts with the defined name or, for a constant, the constant
                self.buf.push_str(&format!("(get-value ({}))\n(echo \"@end\")\n", Self::bv(ar, e)));
                self.send();
                let mut text = String::new();
                loop {
                    let s = self.line();
                    if s.contains("@end") {
                        break;
                    }
                    text.push_str(&s);
                    text.push(' ');
                }
                let t = text.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).last();
                *v = Some(parse_bv(t.unwrap_or_else(|| panic!("value: {text}")), ar.width(e)));
            }
            if let Some(m) = model {
                let mut vs: Vec<(u32, E)> = vec![];
                for (e, n) in ar.nodes.iter().enumerate() {
                    if let N::Var(i) = n {
                        if self.defined.contains(&(e as E)) {
                            vs.push((*i, e as E));
                        }
                    }
                }
                if !vs.is_empty() {
                    self.buf.push_str("(get-value (");
                    for (_, e) in &vs {
                        self.buf.push_str(&format!("n{e} "));
                    }
                    self.buf.push_str("))\n(echo \"@end\")\n");
                    self.send();
                    let mut text = String::new();
                    loop {
                        let s = self.line();
                        if s.contains("@end") {
                            break;
                        }
                        text.push_str(&s);
                        text.push(' ');
                    }
                    let by: HashMap<String, u32> = vs.iter().map(|(i, e)| (format!("n{e}"), *i)).collect();
                    let toks: Vec<&str> =
                        text.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
                    let mut k = 0;
                    while k + 1 < toks.len() {
                        let i = *by.get(toks[k]).unwrap_or_else(|| panic!("model: {text}"));
                        m.insert(i, parse_bv(toks[k + 1], ar.vars[i as usize].w));
                        k += 2;
                    }
                }
            }
        }
        self.buf.push_str("(pop 1)\n");
        self.send();
        r
    }

    /// Feasibility of `lit` under a path condition known to be satisfiable: only the part of the
    /// path condition connected to `lit` through shared variables is sent.
    pub fn feasible(&mut self, a: &mut Arena, pc: &[E], lit: E) -> Sat {
        if lit == a.f {
            return Sat::Unsat;
        }
        if lit == a.t {
            return Sat::Sat;
        }
        let sups: Vec<Sup> = pc.iter().map(|x| self.support(a, *x)).collect();
        let mut cur: Vec<(u32, u32, u32)> = self.support(a, lit).as_ref().clone();
        let mut used = vec![false; pc.len()];
        let mut sel = vec![lit];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && overlap(&cur, &sups[i]) {
                    used[i] = true;
                    ch = true;
                    sel.push(pc[i]);
                    cur.extend_from_slice(&sups[i]);
                    merge_ranges(&mut cur);
                }
            }
            if !ch {
                break;
            }
        }
        if sel.len() == 1 {
            // a single free bit
            let x = match *a.node(lit) {
                N::Not(y) => y,
                _ => lit,
            };
            let free = match a.node(x) {
                N::Var(_) => true,
                N::Slice(b, _) => matches!(a.node(*b), N::Var(_)),
                N::Eq(p, q) => {
                    let fv = |z: E| match a.node(z) {
                        N::Var(_) => true,
                        N::Slice(b, _) => matches!(a.node(*b), N::Var(_)),
                        _ => false,
                    };
                    (fv(*p) && a.is_const(*q)) || (fv(*q) && a.is_const(*p))
                }
                _ => false,
            };
            if free {
                self.stats.fast += 1;
                return Sat::Sat;
            }
        }
        self.check(a, &sel)
    }
}

pub fn parse_bv(s: &str, w: u32) -> Big {
    let mut b = vec![0u8; (w as usize + 7) / 8];
    if let Some(h) = s.strip_prefix("#x") {
        for (i, c) in h.chars().rev().enumerate() {
            let v = c.to_digit(16).unwrap() as u8;
            b[i / 2] |= v << (4 * (i % 2));
        }
    } else if let Some(h) = s.strip_prefix("#b") {
        for (i, c) in h.chars().rev().enumerate() {
            if c == '1' {
                b[i / 8] |= 1 << (i % 8);
            }
        }
    } else if s == "true" {
        b[0] = 1;
    } else if s == "false" {
    } else {
        panic!("value {s}");
    }
    let mut x = Big::from_bytes(&b);
    if x.0.len() != ((w as usize) + 63) / 64 {
        x = x.slice(0, w);
    }
    x
}
