//! Symbolic execution of LLVM IR with state merging at immediate post-dominators.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(u32, u128),
    S(E),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub tag: String,
    pub val: E, // width 8*len
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub pc: Vec<E>,
    pub lits: Rc<FxMap<E, E>>,
    pub ver: u64,
    pub obs: Vec<Obs>,
    pub choices: Vec<(u32, u64)>,
    /// instructions executed on the way here
    pub steps: u64,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Arc<Func>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: usize,
    pub ret: V,
    /// address to which a pending fork re-executes
    pub sp0: u64,
}

/// abnormal results that abort the whole job
#[derive(Debug)]
pub enum Stop {
    Unsupported(String),
    Violation,
}
type X<T> = Result<T, Stop>;

pub enum Flow {
    Next,
    Jump(u32),
    Ret,
    Fork(E),
    End,
    Many(Vec<(State, V)>, Option<u32>), // several results of a call; destination register
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub kind: String,
    pub model: Vec<String>,
    pub realised: bool,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub model: Vec<String>,
    pub obs: Vec<(String, String)>,
}

pub struct Limits {
    pub steps: u64,
    pub samples: usize,
    pub deadline: std::time::Instant,
    pub no_merge: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    Func,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    VpSym,
    VpChoose,
    VpMark,
    VpFormatter,
    FmtField,
    FmtNop,
    VpParam,
    VpAssume,
    VpAssert,
    VpAssertEq,
    VpEq,
    VpSelect,
    VpFind,
    VpHash,
    VpObserve,
    VpCover,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    LifetimeEnd,
    Assume,
    Intr(u8),
    Float,
    Trap,
    Unknown,
}

pub struct Ctx {
    pub a: Arena,
    pub s: Solver,
    pub m: Arc<Module>,
    pub params: Vec<u64>,
    /// Choices this job is restricted to: tag and value.
    pub fixed: Vec<(u32, u64)>,
    pub lim: Limits,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub refused: u64,
    pub paths: u64,
    pub asserts_struct: u64,
    pub asserts_smt: u64,
    pub assert_ids: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub funcs: HashMap<String, u64>,
    pub sym_sizes: std::collections::BTreeSet<(u32, u32)>,
    pub seed: u64,
    builtins: HashMap<String, B>,
    glob_by_id: Vec<usize>,
    memo: FxMap<E, E>,
    /// Terms of record keys looked at by `vp_find`.
    rec_memo: FxMap<Box<[Cell]>, E>,
    memo_ver: u64,
    ver: u64,
    pub trace: u32,
    pub stack: Vec<String>,
    pub refuse_log: HashMap<String, u64>,
    pub fork_log: HashMap<String, u64>,
    splits: u32,
    undecided: Option<State>,
}

fn classify(name: &str, defined: bool) -> B {
    if let Some(r) = name.strip_prefix("llvm.") {
        let pre = |p: &str| r.starts_with(p);
        if pre("memcpy") || pre("memmove") {
            return B::Memcpy;
        }
        if pre("memset") {
            return B::Memset;
        }
        if pre("lifetime.end") || pre("lifetime.start") {
            return B::LifetimeEnd;
        }
        if pre("experimental.noalias") || pre("dbg.") || pre("donothing") || pre("prefetch") || pre("sideeffect") {
            return B::Nop;
        }
        if pre("assume") {
            return B::Assume;
        }
        if pre("trap") || pre("ubsantrap") {
            return B::Trap;
        }
        if FLOAT_INTR.contains(&r.split('.').next().unwrap()) && !pre("abs") {
            return B::Float;
        }
        for (i, n) in INTR.iter().enumerate() {
            if pre(n) {
                return B::Intr(i as u8);
            }
        }
        return B::Unknown;
    }
    match name {
        "memcpy" | "memmove" => return B::Memcpy,
        "memset" => return B::Memset,
        "bcmp" => return B::Bcmp,
        "memcmp" => return B::Memcmp,
        "strlen" => return B::Strlen,
        "abort" => return B::Trap,
        "log2" | "log2f" | "ceil" | "ceilf" | "floor" | "floorf" | "round" | "roundf" | "trunc" | "truncf" | "log" | "logf" | "exp2" | "exp2f" | "pow" | "powf" | "sqrt" | "sqrtf" | "log10" | "log10f" => return B::Float,
        "vp_sym" => return B::VpSym,
        "vp_choose" => return B::VpChoose,
        "vp_mark" => return B::VpMark,
        "vp_formatter" => return B::VpFormatter,
        "vp_param" => return B::VpParam,
        "vp_assume" => return B::VpAssume,
        "vp_assert" => return B::VpAssert,
        "vp_assert_eq" => return B::VpAssertEq,
        "vp_eq" => return B::VpEq,
        "vp_select" => return B::VpSelect,
        "vp_find" => return B::VpFind,
        "vp_hash" => return B::VpHash,
        "vp_observe" => return B::VpObserve,
        "vp_cover" => return B::VpCover,
        _ => {}
    }
    if name.contains("19___rust_alloc_zeroed") || name == "__rust_alloc_zeroed" {
        return B::AllocZ;
    }
    if name.contains("14___rust_dealloc") || name == "__rust_dealloc" {
        return B::Dealloc;
    }
    if name.contains("14___rust_realloc") || name.contains("15___rust_realloc") || name == "__rust_realloc" {
        return B::Realloc;
    }
    if name.contains("12___rust_alloc") || name == "__rust_alloc" {
        return B::Alloc;
    }
    if name.contains("no_alloc_shim_is_unstable") {
        return B::Nop;
    }
    for p in [
        "9panicking",
        "unwrap_failed",
        "expect_failed",
        "slice_index_fail",
        "index_len_fail",
        "index_order_fail",
        "index_overflow_fail",
        "len_mismatch_fail",
        "handle_alloc_error",
        "capacity_overflow",
        "raw_vec12handle_error",
        "begin_panic",
        "panic_fmt",
        "assert_failed",
        "slice_error_fail",
    ] {
        if name.contains(p) {
            return B::Panic;
        }
    }
    if name.contains("debug_tuple_field1_finish") {
        return B::FmtField;
    }
    if name.contains("4core3fmt") && (!defined || name.starts_with("_RNvM") || name.contains("4core3fmt3num")) {
        return B::FmtNop;
    }
    if defined {
        B::Func
    } else {
        B::Unknown
    }
}

const FLOAT_INTR: [&str; 24] = [
    "ceil", "floor", "trunc", "round", "rint", "roundeven", "nearbyint", "sqrt", "fabs", "log2", "log", "log10", "exp2", "exp", "pow", "powi",
    "minnum", "maxnum", "copysign", "fptoui", "fptosi", "fma", "fmuladd", "canonicalize",
];
/// Floating point on concrete operands.
fn float_op(name: &str, rt: &Ty, ops: &[(Ty, u128)]) -> Option<u128> {
    let get = |i: usize| -> Option<f64> {
        match ops.get(i)? {
            (Ty::Float(32), v) => Some(f32::from_bits(*v as u32) as f64),
            (Ty::Float(64), v) => Some(f64::from_bits(*v as u64)),
            _ => None,
        }
    };
    let single = matches!(rt, Ty::Float(32));
    let put = |x: f64| -> u128 {
        if single {
            (x as f32).to_bits() as u128
        } else {
            x.to_bits() as u128
        }
    };
    let int = |x: f64, signed: bool| -> Option<u128> {
        let w = rt.bits();
        if w > 64 {
            return None;
        }
        if signed {
            let lim = (1i128 << (w - 1)) as f64;
            let v = if x.is_nan() { 0 } else if x >= lim { (1i128 << (w - 1)) - 1 } else if x < -lim { -(1i128 << (w - 1)) } else { x as i128 };
            return Some(mask(v as u128, w));
        }
        let max = mask(u128::MAX, w);
        Some(if x >= max as f64 { max.min(x as u128) } else { x as u128 }.min(max))
    };
    if let Some(pr) = name.strip_prefix("fcmp ") {
        let (a, b) = (get(0)?, get(1)?);
        let un = a.is_nan() || b.is_nan();
        let c = match &pr[pr.len() - 2..] {
            "eq" => a == b,
            "ne" => a != b && !un,
            "gt" => a > b,
            "ge" => a >= b,
            "lt" => a < b,
            "le" => a <= b,
            "rd" => !un,
            "no" => return Some(un as u128),
            "ue" => true,
            "se" => false,
            _ => return None,
        };
        return Some(match pr.as_bytes()[0] {
            b'o' => c && !un,
            b'u' => c || un,
            _ => c,
        } as u128);
    }
    let n = name.strip_prefix("llvm.").unwrap_or(name);
    let n = n.split('.').next().unwrap();
    let n = if n.ends_with('f') && !matches!(n, "uitof") && !name.starts_with("llvm.") { &n[..n.len() - 1] } else { n };
    Some(match n {
        "uitofp" => match rt {
            Ty::Float(32) => (ops[0].1 as f32).to_bits() as u128,
            _ => (ops[0].1 as f64).to_bits() as u128,
        },
        "sitofp" => {
            let v = sext128(ops[0].1, ops[0].0.bits());
            match rt {
                Ty::Float(32) => (v as f32).to_bits() as u128,
                _ => (v as f64).to_bits() as u128,
            }
        }
        "fptoui" => return int(get(0)?, false),
        "fptosi" => return int(get(0)?, true),
        "fpext" | "fptrunc" => put(get(0)?),
        _ if single => {
            // single-precision operations are done in single precision
            let a = get(0)? as f32;
            let b = get(1).unwrap_or(0.0) as f32;
            let r = match n {
                "fadd" => a + b,
                "fsub" => a - b,
                "fmul" => a * b,
                "fdiv" => a / b,
                "frem" => a % b,
                "fneg" => -a,
                "ceil" => a.ceil(),
                "floor" => a.floor(),
                "trunc" => a.trunc(),
                "round" => a.round(),
                "rint" | "nearbyint" | "roundeven" => a.round_ties_even(),
                "sqrt" => a.sqrt(),
                "fabs" => a.abs(),
                "log2" => a.log2(),
                "log" => a.ln(),
                "log10" => a.log10(),
                "exp2" => a.exp2(),
                "exp" => a.exp(),
                "pow" => a.powf(b),
                "minnum" => a.min(b),
                "maxnum" => a.max(b),
                "copysign" => a.copysign(b),
                _ => return None,
            };
            r.to_bits() as u128
        }
        _ => {
            let a = get(0)?;
            let b = get(1).unwrap_or(0.0);
            let r = match n {
                "fadd" => a + b,
                "fsub" => a - b,
                "fmul" => a * b,
                "fdiv" => a / b,
                "frem" => a % b,
                "fneg" => -a,
                "ceil" => a.ceil(),
                "floor" => a.floor(),
                "trunc" => a.trunc(),
                "round" => a.round(),
                "rint" | "nearbyint" | "roundeven" => a.round_ties_even(),
                "sqrt" => a.sqrt(),
                "fabs" => a.abs(),
                "log2" => a.log2(),
                "log" => a.ln(),
                "log10" => a.log10(),
                "exp2" => a.exp2(),
                "exp" => a.exp(),
                "pow" => a.powf(b),
                "minnum" => a.min(b),
                "maxnum" => a.max(b),
                "copysign" => a.copysign(b),
                _ => return None,
            };
            r.to_bits() as u128
        }
    })
}

const INTR: [&str; 24] = [
    "fshl",
    "fshr",
    "umax",
    "umin",
    "smax",
    "smin",
    "uadd.with.overflow",
    "usub.with.overflow",
    "umul.with.overflow",
    "sadd.with.overflow",
    "ssub.with.overflow",
    "smul.with.overflow",
    "uadd.sat",
    "usub.sat",
    "cttz",
    "ctlz",
    "ctpop",
    "bswap",
    "bitreverse",
    "ucmp",
    "scmp",
    "abs",
    "is.constant",
    "expect",
];

fn mask(v: u128, w: u32) -> u128 {
    mask128(v, w)
}

impl Ctx {
    pub fn new(m: Arc<Module>, solver: Vec<String>, timeout_ms: u64, params: Vec<u64>, lim: Limits) -> Ctx {
        let mut glob_by_id = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            let id = ((g.addr >> 32) - GLOBAL_BASE_ID) as usize;
            if glob_by_id.len() <= id {
                glob_by_id.resize(id + 1, usize::MAX);
            }
            glob_by_id[id] = i;
        }
        Ctx {
            a: Arena::new(),
            s: Solver::new(solver, timeout_ms),
            m,
            params,
            fixed: vec![],
            lim,
            steps: 0,
            forks: 0,
            merges: 0,
            refused: 0,
            paths: 0,
            asserts_struct: 0,
            asserts_smt: 0,
            assert_ids: Default::default(),
            covers: Default::default(),
            violations: vec![],
            samples: vec![],
            funcs: HashMap::new(),
            sym_sizes: Default::default(),
            seed: 1,
            builtins: HashMap::new(),
            glob_by_id,
            memo: Default::default(),
            rec_memo: Default::default(),
            memo_ver: 0,
            ver: 1,
            trace: 0,
            stack: vec![],
            refuse_log: HashMap::new(),
            fork_log: HashMap::new(),
            splits: 0,
            undecided: None,
        }
    }
    fn unsup<T>(&self, s: impl Into<String>) -> X<T> {
        Err(Stop::Unsupported(format!("{} [in {}]", s.into(), self.stack.iter().rev().take(4).cloned().collect::<Vec<_>>().join(" < "))))
    }

    // ------------------------------------------------------------------ values
    pub fn norm(&self, e: E) -> V {
        let w = self.a.width(e);
        if w <= 128 {
            if let Some(c) = self.a.as_u(e) {
                return V::I(w, c);
            }
        }
        V::S(e)
    }
    pub fn term(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(vw, x) => {
                debug_assert_eq!(*vw, w);
                self.a.c(*x, w)
            }
            V::S(e) => {
                debug_assert_eq!(self.a.width(*e), w, "term width");
                *e
            }
            V::U => self.a.zero(w),
            V::A(xs) => {
                let n = xs.len() as u32;
                let ew = w / n;
                let v: Vec<E> = xs.clone().iter().map(|x| self.term(x, ew)).collect();
                self.a.concat(&v)
            }
        }
    }
    fn undef_of(ty: &Ty) -> V {
        match ty {
            Ty::Struct(_, ts) => V::A(Rc::new(ts.iter().map(Self::undef_of).collect())),
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| Self::undef_of(t)).collect())),
            Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| Self::undef_of(t)).collect())),
            _ => V::U,
        }
    }
    fn zero_of(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Struct(_, ts) => V::A(Rc::new(ts.iter().map(|t| self.zero_of(t)).collect())),
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero_of(t)).collect())),
            Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero_of(t)).collect())),
            _ => {
                let w = ty.bits();
                if w <= 128 {
                    V::I(w, 0)
                } else {
                    V::S(self.a.zero(w))
                }
            }
        }
    }
    fn op(&mut self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::C(w, k) => V::I(*w, *k),
            Op::Wide(b, w) => {
                let big = Big::from_bytes(b);
                let e = self.a.cbig(big, *w);
                self.norm(e)
            }
            Op::Undef(t) => Self::undef_of(t),
            Op::Zero(t) => self.zero_of(t),
            Op::Agg(v) => {
                let xs: Vec<V> = v.iter().map(|x| self.op(fr, x)).collect();
                V::A(Rc::new(xs))
            }
            Op::Nop => V::U,
        }
    }
    /// simplify under the path condition
    fn simp(&mut self, st: &State, e: E) -> E {
        if st.lits.is_empty() || self.a.is_const(e) {
            return e;
        }
        if self.memo_ver != st.ver {
            self.memo.clear();
            self.memo_ver = st.ver;
        }
        self.a.simp(e, &st.lits, &mut self.memo)
    }
    fn simpv(&mut self, st: &State, v: V) -> V {
        match v {
            V::S(e) => {
                let x = self.simp(st, e);
                self.norm(x)
            }
            x => x,
        }
    }

    // ------------------------------------------------------------------ path condition
    fn lit_into(&mut self, lits: &mut FxMap<E, E>, l: E) {
        let (t, f) = (self.a.t, self.a.f);
        lits.insert(l, t);
        let n = self.a.not(l);
        lits.insert(n, f);
        match self.a.node(l).clone() {
            N::And(ps) => {
                for p in ps.iter() {
                    self.lit_into(lits, *p);
                }
            }
            N::Eq(x, y) => {
                if self.a.is_const(y) {
                    lits.insert(x, y);
                } else if self.a.is_const(x) {
                    lits.insert(y, x);
                }
            }
            _ => {}
        }
    }
    fn add_pc(&mut self, st: &mut State, l: E) {
        if l == self.a.t {
            return;
        }
        st.pc.push(l);
        let mut m = (*st.lits).clone();
        self.lit_into(&mut m, l);
        st.lits = Rc::new(m);
        self.ver += 1;
        st.ver = self.ver;
    }
    fn rebuild_lits(&mut self, st: &mut State) {
        let mut m: FxMap<E, E> = Default::default();
        for l in st.pc.clone() {
            self.lit_into(&mut m, l);
        }
        st.lits = Rc::new(m);
        self.ver += 1;
        st.ver = self.ver;
    }
    fn feas(&mut self, st: &State, l: E) -> X<bool> {
        if l == self.a.t {
            return Ok(true);
        }
        if l == self.a.f {
            return Ok(false);
        }
        Ok(match self.s.feasible(&mut self.a, &st.pc, l) {
            Sat::Unsat => false,
            _ => true,
        })
    }

    // ------------------------------------------------------------------ memory
    fn ensure_glob(&mut self, st: &mut State, addr: u64) -> X<()> {
        let id = addr >> 32;
        if id >= GLOB_BASE && id < (1 << 27) && st.mem.obj(id).is_none() {
            let k = (id - GLOB_BASE) as usize;
            let gi = self.glob_by_id.get(k).copied().unwrap_or(usize::MAX);
            if gi == usize::MAX {
                return self.unsup(format!("bad global address {addr:#x}"));
            }
            let m = self.m.clone();
            let g = &m.globals[gi];
            if g.external {
                return self.unsup(format!("external global {}", g.name));
            }
            let init = m.global_init(g).map_err(Stop::Unsupported)?;
            let kind = if g.constant { Kind::Const } else { Kind::Global };
            *st.mem.slot(id) = Some(Rc::new(Obj { kind, cells: init.into_iter().map(|b| b as Cell).collect() }));
        }
        Ok(())
    }
    fn cells_value(&mut self, cells: &[Cell], w: u32) -> V {
        // all concrete?
        if w <= 128 {
            let mut acc: u128 = 0;
            let mut ok = true;
            let mut allundef = true;
            for (i, c) in cells.iter().enumerate() {
                if *c < 256 {
                    acc |= (*c as u128) << (8 * i);
                    allundef = false;
                } else if *c == UNDEF {
                } else {
                    ok = false;
                    allundef = false;
                    break;
                }
            }
            if allundef {
                return V::U;
            }
            if ok {
                return V::I(w, mask(acc, w));
            }
        }
        let e = self.cells_term(cells);
        let e = self.a.slice(e, 0, w);
        self.norm(e)
    }
    /// little-endian concatenation; undefined bytes read as zero
    pub fn cells_term(&mut self, cells: &[Cell]) -> E {
        let mut parts: Vec<E> = vec![];
        let mut i = 0;
        while i < cells.len() {
            if let Some((e, k)) = cell_sym(cells[i]) {
                let mut n = 1;
                while i + n < cells.len() && cells[i + n] == sym_cell(e, k + n as u32) {
                    n += 1;
                }
                let p = self.a.slice(e, 8 * k, 8 * n as u32);
                parts.push(p);
                i += n;
            } else {
                let mut bytes = vec![];
                while i < cells.len() && cells[i] & SYM == 0 {
                    bytes.push(if cells[i] == UNDEF { 0 } else { cells[i] as u8 });
                    i += 1;
                }
                let w = 8 * bytes.len() as u32;
                let b = Big::from_bytes(&bytes);
                let p = self.a.cbig(b, w);
                parts.push(p);
            }
        }
        self.a.concat(&parts)
    }
    pub fn term_cells(&mut self, e: E, out: &mut Vec<Cell>) {
        let w = self.a.width(e);
        if w % 8 != 0 {
            let w2 = (w + 7) / 8 * 8;
            let z = self.a.zext(e, w2);
            return self.term_cells(z, out);
        }
        match self.a.node(e).clone() {
            N::C(b) => {
                for x in b.to_bytes(w) {
                    out.push(x as Cell);
                }
            }
            N::Slice(b, lo) if lo % 8 == 0 && lo / 8 + w / 8 < 65536 => {
                // only if the base itself is byte sized
                for i in 0..w / 8 {
                    out.push(sym_cell(b, lo / 8 + i));
                }
            }
            N::Concat(ps) => {
                // split where part boundaries are byte aligned
                let mut pos = 0;
                let mut group: Vec<E> = vec![];
                let mut start = 0;
                for &p in ps.iter() {
                    let pw = self.a.width(p);
                    group.push(p);
                    pos += pw;
                    if pos % 8 == 0 {
                        if group.len() == 1 {
                            self.term_cells(p, out);
                        } else {
                            let g = self.a.concat(&group);
                            if matches!(self.a.node(g), N::Concat(_)) {
                                for i in 0..(pos - start) / 8 {
                                    out.push(sym_cell(g, i));
                                }
                            } else {
                                self.term_cells(g, out);
                            }
                        }
                        group.clear();
                        start = pos;
                    }
                }
            }
            _ => {
                for i in 0..w / 8 {
                    out.push(sym_cell(e, i));
                }
            }
        }
    }
    /// alternatives of a symbolic address: (condition, address); conditions partition the path
    fn ite_leaves(&self, e: E, out: &mut Vec<u64>, budget: usize) -> bool {
        match self.a.node(e) {
            N::C(_) => {
                out.push(self.a.as_u(e).unwrap() as u64);
                out.len() <= budget
            }
            N::Ite(_, x, y) => self.ite_leaves(*x, out, budget) && self.ite_leaves(*y, out, budget),
            _ => false,
        }
    }
    fn valid(&mut self, st: &mut State, addr: u64, n: u64) -> X<bool> {
        if n == 0 {
            return Ok(true);
        }
        if (addr >> 32) == 0 {
            return Ok(false);
        }
        if addr >= FUNC_BASE {
            return Ok(false);
        }
        self.ensure_glob(st, addr)?;
        Ok(st.mem.read(addr, n).is_some())
    }
    fn load_conc(&mut self, st: &mut State, addr: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::Struct(_, ts) => {
                let (offs, _) = ty.struct_layout();
                let mut v = vec![];
                for (t, o) in ts.iter().zip(offs) {
                    v.push(self.load_conc(st, addr + o, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_conc(st, addr + i * s, t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    return self.unsup("vector of sub-byte elements");
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load_conc(st, addr + i * (b as u64 / 8), t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let n = ty.store_size();
                let w = ty.bits();
                self.ensure_glob(st, addr)?;
                let Some(c) = st.mem.read(addr, n) else {
                    return self.unsup(format!("invalid load of {n} bytes at {addr:#x}"));
                };
                if w <= 64 {
                    // concrete fast path without copying
                    let mut acc: u64 = 0;
                    let mut ok = true;
                    for (i, x) in c.iter().enumerate() {
                        if *x >= 256 {
                            ok = false;
                            break;
                        }
                        acc |= *x << (8 * i);
                    }
                    if ok {
                        return Ok(V::I(w, mask(acc as u128, w)));
                    }
                }
                let c: Vec<Cell> = c.to_vec();
                Ok(self.cells_value(&c, w))
            }
        }
    }
    fn store_conc(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> X<()> {
        match (ty, v) {
            (Ty::Struct(_, ts), V::A(xs)) => {
                let (offs, _) = ty.struct_layout();
                for (i, t) in ts.iter().enumerate() {
                    self.store_conc(st, addr + offs[i], t, &xs[i])?;
                }
                Ok(())
            }
            (Ty::Arr(_, t), V::A(xs)) => {
                let s = t.size();
                for (i, x) in xs.iter().enumerate() {
                    self.store_conc(st, addr + i as u64 * s, t, x)?;
                }
                Ok(())
            }
            (Ty::Vec(_, t), V::A(xs)) => {
                let b = t.bits();
                if b % 8 != 0 {
                    return self.unsup("vector of sub-byte elements");
                }
                for (i, x) in xs.iter().enumerate() {
                    self.store_conc(st, addr + i as u64 * (b as u64 / 8), t, x)?;
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size();
                let mut cells: Vec<Cell> = Vec::with_capacity(n as usize);
                match v {
                    V::I(_, x) => {
                        for i in 0..n {
                            cells.push(if i < 16 { (x >> (8 * i)) as u8 as Cell } else { 0 });
                        }
                    }
                    V::S(e) => self.term_cells(*e, &mut cells),
                    V::U => cells.resize(n as usize, UNDEF),
                    V::A(_) => return self.unsup("aggregate store"),
                }
                debug_assert_eq!(cells.len(), n as usize);
                self.write_cells(st, addr, &cells)
            }
        }
    }
    fn write_cells(&mut self, st: &mut State, addr: u64, cells: &[Cell]) -> X<()> {
        if cells.is_empty() {
            return Ok(());
        }
        self.ensure_glob(st, addr)?;
        match st.mem.write(addr, cells.len() as u64) {
            Some(d) => {
                d.copy_from_slice(cells);
                Ok(())
            }
            None => self.unsup(format!("invalid store of {} bytes at {addr:#x}", cells.len())),
        }
    }
    fn read_cells(&mut self, st: &mut State, addr: u64, n: u64) -> X<Vec<Cell>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.ensure_glob(st, addr)?;
        match st.mem.read(addr, n) {
            Some(c) => Ok(c.to_vec()),
            None => self.unsup(format!("invalid read of {n} bytes at {addr:#x}")),
        }
    }
    /// Either a concrete value or a condition to fork on.
    fn concretise(&mut self, st: &State, v: V) -> X<Result<u128, E>> {
        match self.simpv(st, v) {
            V::I(_, x) => Ok(Ok(x)),
            V::S(e) => {
                if let N::Ite(c, _, _) = *self.a.node(e) {
                    return Ok(Err(c));
                }
                // a value that the solver allows
                let pc = st.pc.clone();
                let x = match self.s.value(&mut self.a, &pc, e) {
                    (Sat::Sat, Some(x)) => x,
                    (r, _) => return self.unsup(format!("cannot concretise: {r:?}")),
                };
                let w = self.a.width(e);
                let k = self.a.cbig(x.clone(), w);
                let eq = self.a.eq(e, k);
                if eq == self.a.t {
                    return Ok(Ok(x.to_u128().unwrap()));
                }
                // forced?
                let ne = self.a.not(eq);
                if !self.feas(st, ne)? {
                    return Ok(Ok(x.to_u128().unwrap()));
                }
                Ok(Err(eq))
            }
            V::U => self.unsup("undefined value where a concrete one is needed"),
            V::A(_) => self.unsup("aggregate where a scalar is needed"),
        }
    }
    /// Case split on the values of an operand the term language cannot express.
    fn split(&mut self, c: E) -> X<Flow> {
        self.splits += 1;
        if self.splits > 4000 {
            return self.unsup("too many values of a floating-point operand");
        }
        Ok(Flow::Fork(c))
    }
    pub fn eval_model(&self, e: E, m: &Model) -> Big {
        let mut memo: FxMap<E, Big> = Default::default();
        self.a.eval(
            e,
            &|i| m.get(&i).cloned().unwrap_or_else(|| Big::from_u128(0, self.a.vars[i as usize].w)),
            &mut memo,
        )
    }

    /// Load through a possibly symbolic address.
    fn load(&mut self, st: &mut State, addr: &V, ty: &Ty) -> X<Result<V, E>> {
        match addr {
            V::I(_, a) => Ok(Ok(self.load_conc(st, *a as u64, ty)?)),
            V::S(e) => {
                let e = self.simp(st, *e);
                if let Some(a) = self.a.as_u(e) {
                    return Ok(Ok(self.load_conc(st, a as u64, ty)?));
                }
                let n = ty.size();
                let mut leaves = vec![];
                if self.ite_leaves(e, &mut leaves, 64) {
                    let mut ok = true;
                    for l in &leaves {
                        if !self.valid(st, *l, n)? {
                            ok = false;
                            break;
                        }
                    }
                    if !ok || !ty.is_scalar() {
                        if let N::Ite(c, _, _) = *self.a.node(e) {
                            return Ok(Err(c));
                        }
                    }
                    let mut memo: FxMap<E, V> = Default::default();
                    return Ok(Ok(self.load_tree(st, e, ty, &mut memo)?));
                }
                // base + bounded symbolic offset into one object
                if ty.is_scalar() {
                    if let Some(v) = self.load_table(st, e, ty)? {
                        return Ok(Ok(v));
                    }
                }
                match self.concretise(st, V::S(e))? {
                    Ok(a) => Ok(Ok(self.load_conc(st, a as u64, ty)?)),
                    Err(c) => Ok(Err(c)),
                }
            }
            _ => self.unsup("load from undefined address"),
        }
    }
    fn load_tree(&mut self, st: &mut State, e: E, ty: &Ty, memo: &mut FxMap<E, V>) -> X<V> {
        if let Some(v) = memo.get(&e) {
            return Ok(v.clone());
        }
        let v = match *self.a.node(e) {
            N::Ite(c, x, y) => {
                let p = self.load_tree(st, x, ty, memo)?;
                let q = self.load_tree(st, y, ty, memo)?;
                self.ite_v(c, &p, &q, ty.bits())
            }
            _ => {
                let a = self.a.as_u(e).unwrap() as u64;
                self.load_conc(st, a, ty)?
            }
        };
        memo.insert(e, v.clone());
        Ok(v)
    }
    fn ite_v(&mut self, c: E, p: &V, q: &V, w: u32) -> V {
        if p == q {
            return p.clone();
        }
        match (p, q) {
            (V::U, x) | (x, V::U) => x.clone(),
            _ => {
                let (x, y) = (self.term(p, w), self.term(q, w));
                let e = self.a.ite(c, x, y);
                self.norm(e)
            }
        }
    }
    /// table lookup in a small object with a symbolic index
    fn load_table(&mut self, st: &mut State, e: E, ty: &Ty) -> X<Option<V>> {
        let (base, idx) = match *self.a.node(e) {
            N::Add(x, y) => {
                if let Some(b) = self.a.as_u(x) {
                    (b as u64, y)
                } else if let Some(b) = self.a.as_u(y) {
                    (b as u64, x)
                } else {
                    return Ok(None);
                }
            }
            N::Concat(ref ps) => {
                // base | low bits: constant high part
                let ps = ps.clone();
                let top = *ps.last().unwrap();
                let lo = 64 - self.a.width(top);
                let Some(b) = self.a.as_u(top) else { return Ok(None) };
                if lo >= 32 {
                    return Ok(None);
                }
                let z = self.a.c(0, 64 - lo);
                let mut v = ps[..ps.len() - 1].to_vec();
                v.push(z);
                ((b as u64) << lo, self.a.concat(&v))
            }
            _ => return Ok(None),
        };
        self.ensure_glob(st, base)?;
        let Some(o) = st.mem.obj(base >> 32) else { return Ok(None) };
        let size = o.cells.len() as u64;
        let off = base & 0xffff_ffff;
        let n = ty.store_size();
        if size > 4096 || size < off + n {
            return Ok(None);
        }
        // stride: trailing known-zero bits of idx
        let mut stride = 1u64;
        if let N::Concat(ps) = self.a.node(idx).clone() {
            if let Some(z) = self.a.as_c(ps[0]) {
                if z.is_zero() {
                    stride = 1 << self.a.width(ps[0]).min(12);
                }
            }
        }
        let ub = self.a.upper_bound(idx);
        let maxi = (size - off - n) / stride;
        if maxi > 64 {
            return Ok(None);
        }
        if ub > (maxi * stride) as u128 {
            let k = self.a.c((maxi * stride) as u128, 64);
            let oob = self.a.ult(k, idx);
            if self.feas(st, oob)? {
                return Ok(None);
            }
        }
        let w = ty.bits();
        let mut acc = self.load_conc(st, base + maxi * stride, ty)?;
        for i in (0..maxi).rev() {
            let v = self.load_conc(st, base + i * stride, ty)?;
            let k = self.a.c((i * stride) as u128, 64);
            let c = self.a.eq(idx, k);
            acc = self.ite_v(c, &v, &acc, w);
        }
        Ok(Some(acc))
    }
    fn store(&mut self, st: &mut State, addr: &V, ty: &Ty, v: &V) -> X<Option<E>> {
        match addr {
            V::I(_, a) => {
                self.store_conc(st, *a as u64, ty, v)?;
                Ok(None)
            }
            V::S(e) => {
                let e = self.simp(st, *e);
                if let Some(a) = self.a.as_u(e) {
                    self.store_conc(st, a as u64, ty, v)?;
                    return Ok(None);
                }
                let n = ty.size();
                let mut leaves = vec![];
                if ty.is_scalar() && !matches!(v, V::U) && self.ite_leaves(e, &mut leaves, 16) {
                    leaves.sort_unstable();
                    leaves.dedup();
                    let mut ok = true;
                    for l in &leaves {
                        if !self.valid(st, *l, n)? {
                            ok = false;
                        }
                    }
                    if ok {
                        let w = ty.bits();
                        for l in leaves {
                            let k = self.a.c(l as u128, 64);
                            let c = self.a.eq(e, k);
                            let old = self.load_conc(st, l, ty)?;
                            let nv = self.ite_v(c, v, &old, w);
                            self.store_conc(st, l, ty, &nv)?;
                        }
                        return Ok(None);
                    }
                }
                match self.concretise(st, V::S(e))? {
                    Ok(a) => {
                        self.store_conc(st, a as u64, ty, v)?;
                        Ok(None)
                    }
                    Err(c) => Ok(Some(c)),
                }
            }
            _ => self.unsup("store to undefined address"),
        }
    }

    // ------------------------------------------------------------------ merging
    fn is_ptr(&self, a: &State, b: &State, x: u64) -> bool {
        a.mem.is_heap_ptr(x) || b.mem.is_heap_ptr(x)
    }
    fn merge_v(&mut self, c: E, sa: &State, sb: &State, x: &V, y: &V) -> Option<V> {
        if x == y {
            return Some(x.clone());
        }
        match (x, y) {
            (V::U, v) | (v, V::U) => Some(v.clone()),
            (V::I(64, p), V::I(64, q)) => {
                let (p, q) = (*p as u64, *q as u64);
                if (p >> 32) != (q >> 32) && self.is_ptr(sa, sb, p) && self.is_ptr(sa, sb, q) {
                    return None;
                }
                Some(self.ite_v(c, x, y, 64))
            }
            (V::A(p), V::A(q)) => {
                let (p, q) = (p.clone(), q.clone());
                let mut out = vec![];
                for (u, v) in p.iter().zip(q.iter()) {
                    out.push(self.merge_v(c, sa, sb, u, v)?);
                }
                Some(V::A(Rc::new(out)))
            }
            (V::A(_), _) | (_, V::A(_)) => None,
            (V::I(w, _), _) | (_, V::I(w, _)) => Some(self.ite_v(c, x, y, *w)),
            (V::S(p), V::S(_)) => {
                let w = self.a.width(*p);
                Some(self.ite_v(c, x, y, w))
            }
        }
    }
    fn merge_cells(&mut self, c: E, sa: &State, sb: &State, x: &[Cell], y: &[Cell]) -> Option<Vec<Cell>> {
        let n = x.len();
        let mut out: Vec<Cell> = x.to_vec();
        let mut i = 0;
        while i < n {
            if x[i] == y[i] {
                i += 1;
                continue;
            }
            if x[i] == UNDEF {
                out[i] = y[i];
                i += 1;
                continue;
            }
            if y[i] == UNDEF {
                i += 1;
                continue;
            }
            let conc = |k: usize| x[k] < 256 && y[k] < 256;
            if conc(i) {
                // widen to an aligned word when it is concrete on both sides
                let w0 = i / 8 * 8;
                if w0 + 8 <= n && (w0..w0 + 8).all(conc) {
                    let val = |z: &[Cell]| (0..8).fold(0u64, |acc, k| acc | (z[w0 + k] << (8 * k)));
                    let (p, q) = (val(x), val(y));
                    if (p >> 32) != (q >> 32) && self.is_ptr(sa, sb, p) && self.is_ptr(sa, sb, q) {
                        return None;
                    }
                    let v = self.ite_v(c, &V::I(64, p as u128), &V::I(64, q as u128), 64);
                    let e = self.term(&v, 64);
                    for k in 0..8 {
                        out[w0 + k] = sym_cell(e, k as u32);
                    }
                    i = w0 + 8;
                    continue;
                }
            }
            // maximal run that is continuous on both sides
            let mut j = i + 1;
            let cont = |z: &[Cell], k: usize| match (cell_sym(z[k - 1]), cell_sym(z[k])) {
                (Some((e, a)), Some((f, b))) => e == f && b == a + 1,
                (None, None) => true,
                _ => false,
            };
            while j < n && x[j] != y[j] && x[j] != UNDEF && y[j] != UNDEF && cont(x, j) && cont(y, j) && !(conc(i) && j % 8 == 0) {
                j += 1;
            }
            let p = self.cells_term(&x[i..j]);
            let q = self.cells_term(&y[i..j]);
            let e = self.a.ite(c, p, q);
            let mut cs = vec![];
            self.term_cells(e, &mut cs);
            out[i..j].copy_from_slice(&cs);
            i = j;
        }
        Some(out)
    }
    fn try_merge(&mut self, a: &(Frame, State), b: &(Frame, State), at: Option<u32>) -> Result<(Frame, State), String> {
        if self.lim.no_merge {
            return Err("off".into());
        }
        let (fa, sa) = a;
        let (fb, sb) = b;
        if sa.choices != sb.choices {
            return Err("choices".into());
        }
        if fa.blk != fb.blk || fa.ip != fb.ip {
            return Err("position".into());
        }
        if sa.obs.len() != sb.obs.len() || sa.mem.sp != sb.mem.sp {
            return Err(format!("obs/sp {} {}", sa.mem.sp, sb.mem.sp));
        }
        for (x, y) in sa.obs.iter().zip(sb.obs.iter()) {
            if x.tag != y.tag || self.a.width(x.val) != self.a.width(y.val) {
                return Err("obs".into());
            }
        }
        // quick structural refusal on memory
        let hd = sa.mem.heap.diff(&sb.mem.heap);
        let sd = sa.mem.stack.diff(&sb.mem.stack);
        let gd = sa.mem.glob.diff(&sb.mem.glob);
        let mut todo: Vec<(u64, Rc<Obj>, Rc<Obj>)> = vec![];
        let mut take: Vec<(u64, Rc<Obj>)> = vec![];
        for (base, ids, ta, tb) in
            [(HEAP_BASE, &hd, &sa.mem.heap, &sb.mem.heap), (0, &sd, &sa.mem.stack, &sb.mem.stack), (GLOB_BASE, &gd, &sa.mem.glob, &sb.mem.glob)]
        {
            for &i in ids {
                match (ta.get(i), tb.get(i)) {
                    (Some(x), Some(y)) => {
                        if x.cells.len() != y.cells.len() {
                            return Err(format!("object size {} {}", x.cells.len(), y.cells.len()));
                        }
                        if x.cells != y.cells {
                            todo.push((base + i as u64, x.clone(), y.clone()));
                        }
                    }
                    (None, Some(y)) => take.push((base + i as u64, y.clone())),
                    _ => {}
                }
            }
        }
        let mut k = 0;
        while k < sa.pc.len() && k < sb.pc.len() && sa.pc[k] == sb.pc[k] {
            k += 1;
        }
        let ca = self.a.and_all(&sa.pc[k..]);
        let cb = self.a.and_all(&sb.pc[k..]);
        let or = self.a.or2(ca, cb);
        // the smaller of ca / not cb
        let small = |a: &Arena, e: E| match a.node(e) {
            N::And(p) => p.len(),
            N::Not(x) => match a.node(*x) {
                N::And(p) => p.len(),
                _ => 1,
            },
            _ => 1,
        };
        let ncb = self.a.not(cb);
        let c = if small(&self.a, ncb) < small(&self.a, ca) { ncb } else { ca };
        // registers
        let mut fr = fa.clone();
        if let Some(at) = at {
            let live = fa.f.live_in[at as usize].clone();
            for r in 0..fr.regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 0 {
                    continue;
                }
                if fa.regs[r] != fb.regs[r] {
                    match self.merge_v(c, sa, sb, &fa.regs[r], &fb.regs[r]) {
                        Some(v) => fr.regs[r] = v,
                        None => return Err(format!("register {:?} {:?}", fa.regs[r], fb.regs[r])),
                    }
                }
            }
        }
        if fa.ret != fb.ret {
            match self.merge_v(c, sa, sb, &fa.ret, &fb.ret) {
                Some(v) => fr.ret = v,
                None => return Err("return value".into()),
            }
        }
        let mut st = sa.clone();
        for (id, x, y) in todo {
            match self.merge_cells(c, sa, sb, &x.cells, &y.cells) {
                Some(cells) => *st.mem.slot(id) = Some(Rc::new(Obj { kind: x.kind, cells })),
                None => return Err(format!("pointers in object {id} of {} bytes", x.cells.len())),
            }
        }
        for (id, y) in take {
            *st.mem.slot(id) = Some(y);
        }
        st.mem.hp = sa.mem.hp.max(sb.mem.hp);
        for i in 0..st.obs.len() {
            st.obs[i].val = self.a.ite(c, sa.obs[i].val, sb.obs[i].val);
        }
        st.pc.truncate(k);
        if or != self.a.t {
            if let N::And(ps) = self.a.node(or).clone() {
                st.pc.extend(ps.iter());
            } else {
                st.pc.push(or);
            }
        }
        self.rebuild_lits(&mut st);
        Ok((fr, st))
    }
    fn merge_list(&mut self, mut v: Vec<(Frame, State)>, at: Option<u32>) -> Vec<(Frame, State)> {
        if v.len() < 2 {
            return v;
        }
        let mut out: Vec<(Frame, State)> = vec![];
        // last in first: siblings are adjacent
        while let Some(mut x) = v.pop() {
            loop {
                let mut done = true;
                let mut i = v.len();
                while i > 0 {
                    i -= 1;
                    match self.try_merge(&v[i], &x, at) {
                        Ok(y) => {
                            self.merges += 1;
                            x = y;
                            v.remove(i);
                            done = false;
                        }
                        Err(why) => {
                            self.refused += 1;
                            if self.trace > 0 {
                                let key = format!("{} {why}", self.stack.last().cloned().unwrap_or_default());
                                *self.refuse_log.entry(key).or_insert(0) += 1;
                            }
                        }
                    }
                }
                if done || v.is_empty() {
                    break;
                }
            }
            out.push(x);
        }
        out.reverse();
        out
    }

    // ------------------------------------------------------------------ control
    fn edge(&mut self, fr: &mut Frame, to: u32) {
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = fr.blk;
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, m) in &b.phis {
                let v = match m.get(&from) {
                    Some(o) => self.op(fr, o),
                    None => V::U,
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    /// Execute until `stop` (a block of this function) or the function's return.
    fn run(&mut self, mut fr: Frame, mut st: State, stop: Option<u32>) -> X<Vec<(Frame, State)>> {
        let (mut last_fork, mut same_fork) = ((u32::MAX, usize::MAX), 0);
        loop {
            if fr.ip == 0 && Some(fr.blk) == stop {
                return Ok(vec![(fr, st)]);
            }
            let f = fr.f.clone();
            let blk = &f.blocks[fr.blk as usize];
            let mut next: Option<u32> = None;
            while fr.ip < blk.ins.len() {
                self.steps += 1;
                if self.steps & 0xfff == 0 && std::time::Instant::now() > self.lim.deadline {
                    self.undecided.get_or_insert(st);
                    return self.unsup("deadline exceeded");
                }
                st.steps += 1;
                if st.steps > self.lim.steps {
                    return self.budget(&st);
                }
                let ip = fr.ip;
                let flow = match self.step(&mut fr, &mut st, &blk.ins[ip]) {
                    Ok(f) => f,
                    Err(e) => {
                        if self.undecided.is_none() && !matches!(e, Stop::Violation) {
                            self.undecided = Some(st);
                        }
                        return Err(e);
                    }
                };
                match flow {
                    Flow::Next => fr.ip += 1,
                    Flow::Jump(b) => {
                        next = Some(b);
                        break;
                    }
                    Flow::Ret => return Ok(vec![(fr, st)]),
                    Flow::End => return Ok(vec![]),
                    Flow::Many(rs, dst) => {
                        let at = f.ipdom[fr.blk as usize];
                        let mut out = vec![];
                        for (s, v) in rs {
                            let mut g = fr.clone();
                            if let Some(d) = dst {
                                g.regs[d as usize] = v;
                            }
                            g.ip += 1;
                            out.extend(self.run(g, s, at)?);
                        }
                        let mut out = self.merge_list(out, at);
                        if at == stop || out.is_empty() {
                            return Ok(out);
                        }
                        if out.len() == 1 {
                            let (g, s) = out.pop().unwrap();
                            fr = g;
                            st = s;
                            next = None;
                            break;
                        }
                        let mut res = vec![];
                        for (g, s) in out {
                            res.extend(self.run(g, s, stop)?);
                        }
                        return Ok(self.merge_list(res, stop));
                    }
                    Flow::Fork(c) => {
                        let nc = self.a.not(c);
                        let (p, q) = (self.feas(&st, c)?, self.feas(&st, nc)?);
                        if self.trace > 1 {
                            eprintln!("{}fork {} {:?} pc {} -> {p} {q}", "  ".repeat(self.stack.len().min(40)), self.stack.last().unwrap(), f.blocks[fr.blk as usize].name, st.pc.len());
                        }
                        if !p && !q {
                            return Ok(vec![]);
                        }
                        if !(p && q) {
                            // implied: record so that simplification sees it
                            self.add_pc(&mut st, if p { c } else { nc });
                            if let Some(Ins::CondBr(_, x, y)) = f.blocks[fr.blk as usize].ins.get(fr.ip) {
                                next = Some(if p { *x } else { *y });
                                break;
                            }
                            if last_fork == (fr.blk, fr.ip) {
                                same_fork += 1;
                                if same_fork > 190 && self.trace > 0 {
                                    let lit = if p { c } else { nc };
                                    eprintln!("STUCK at {:?}: {}", f.blocks[fr.blk as usize].ins[fr.ip], self.a.show(lit, 9));
                                }
                                if same_fork > 200 {
                                    return self.unsup("branch condition does not simplify");
                                }
                            } else {
                                last_fork = (fr.blk, fr.ip);
                                same_fork = 0;
                            }
                            continue;
                        }
                        self.forks += 1;
                        if self.trace > 0 {
                            let key = format!("{} b{}", self.stack.last().cloned().unwrap_or_default(), f.blocks[fr.blk as usize].name);
                            *self.fork_log.entry(key).or_insert(0) += 1;
                        }
                        let at = f.ipdom[fr.blk as usize];
                        let mut out = vec![];
                        let mut st2 = st.clone();
                        let fr2 = fr.clone();
                        self.add_pc(&mut st, c);
                        self.add_pc(&mut st2, nc);
                        let mut fr2 = fr2;
                        if let Some(Ins::CondBr(_, x, y)) = f.blocks[fr.blk as usize].ins.get(fr.ip) {
                            self.edge(&mut fr, *x);
                            self.edge(&mut fr2, *y);
                        }
                        let r1 = self.run_from(fr, st, at)?;
                        let r2 = self.run_from(fr2, st2, at)?;
                        out.extend(r1);
                        out.extend(r2);
                        let mut out = self.merge_list(out, at);
                        if at == stop {
                            return Ok(out);
                        }
                        if out.is_empty() {
                            return Ok(out);
                        }
                        if out.len() == 1 {
                            let (g, s) = out.pop().unwrap();
                            fr = g;
                            st = s;
                            next = None;
                            break;
                        }
                        let mut res = vec![];
                        for (g, s) in out {
                            res.extend(self.run(g, s, stop)?);
                        }
                        return Ok(self.merge_list(res, stop));
                    }
                }
            }
            if let Some(b) = next {
                self.edge(&mut fr, b);
            }
        }
    }
    /// like `run` but the starting position never counts as having reached `stop`
    fn run_from(&mut self, fr: Frame, st: State, stop: Option<u32>) -> X<Vec<(Frame, State)>> {
        // a fork re-executes an instruction; a fork at ip 0 of block == stop cannot occur because
        // the immediate post-dominator of a block differs from the block itself
        self.run(fr, st, stop)
    }
    fn budget<T>(&mut self, st: &State) -> X<T> {
        let lits = st.pc.clone();
        self.report("steps", "hang", &lits, st);
        Err(Stop::Violation)
    }

    pub fn call(&mut self, f: Arc<Func>, args: Vec<V>, st: State) -> X<Vec<(State, V)>> {
        let sp0 = st.mem.sp;
        let mut regs = vec![V::U; f.nregs as usize];
        for ((r, _), v) in f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        *self.funcs.entry(f.name.clone()).or_insert(0) += 1;
        self.stack.push(f.name.clone());
        if self.stack.len() > 400 {
            return self.unsup("call depth");
        }
        let fr = Frame { f: f.clone(), regs, blk: 0, ip: 0, ret: V::U, sp0 };
        let mut out = self.run(fr, st, None)?;
        for (g, s) in out.iter_mut() {
            s.mem.pop_stack(sp0);
            g.regs = vec![];
            g.blk = 0;
            g.ip = 0;
        }
        let out = self.merge_list(out, None);
        self.stack.pop();
        Ok(out.into_iter().map(|(g, s)| (s, g.ret)).collect())
    }

    fn cmp(&mut self, p: Pred, x: E, y: E) -> E {
        let a = &mut self.a;
        match p {
            Pred::Eq => a.eq(x, y),
            Pred::Ne => {
                let e = a.eq(x, y);
                a.not(e)
            }
            Pred::Ult => a.ult(x, y),
            Pred::Ugt => a.ult(y, x),
            Pred::Ule => {
                let e = a.ult(y, x);
                a.not(e)
            }
            Pred::Uge => {
                let e = a.ult(x, y);
                a.not(e)
            }
            Pred::Slt => a.slt(x, y),
            Pred::Sgt => a.slt(y, x),
            Pred::Sle => {
                let e = a.slt(y, x);
                a.not(e)
            }
            Pred::Sge => {
                let e = a.slt(x, y);
                a.not(e)
            }
        }
    }
    fn step(&mut self, fr: &mut Frame, st: &mut State, ins: &Ins) -> X<Flow> {
        match ins {
            Ins::Bin(op, ty, d, x, y) => {
                let (x, y) = (self.op(fr, x), self.op(fr, y));
                if let (Ty::Vec(_, t), V::A(p), V::A(q)) = (ty, &x, &y) {
                    let w = t.bits();
                    let mut out = vec![];
                    for (u, v) in p.iter().zip(q.iter()) {
                        out.push(self.binop(*op, w, u, v)?);
                    }
                    fr.regs[*d as usize] = V::A(Rc::new(out));
                    return Ok(Flow::Next);
                }
                fr.regs[*d as usize] = self.binop(*op, ty.bits(), &x, &y)?;
            }
            Ins::ICmp(p, ty, d, x, y) => {
                let (x, y) = (self.op(fr, x), self.op(fr, y));
                fr.regs[*d as usize] = match (&x, &y) {
                    (V::I(w, a), V::I(_, b)) => {
                        let (a, b, w) = (*a, *b, *w);
                        let (sa, sb) = (sext128(a, w), sext128(b, w));
                        let r = match p {
                            Pred::Eq => a == b,
                            Pred::Ne => a != b,
                            Pred::Ult => a < b,
                            Pred::Ule => a <= b,
                            Pred::Ugt => a > b,
                            Pred::Uge => a >= b,
                            Pred::Slt => sa < sb,
                            Pred::Sle => sa <= sb,
                            Pred::Sgt => sa > sb,
                            Pred::Sge => sa >= sb,
                        };
                        V::I(1, r as u128)
                    }
                    (V::U, _) | (_, V::U) => V::U,
                    (V::A(p2), V::A(q2)) => {
                        let Ty::Vec(_, t) = ty else { return self.unsup("icmp aggregate") };
                        let w = t.bits();
                        let mut out = vec![];
                        for (u, v) in p2.clone().iter().zip(q2.clone().iter()) {
                            let (a, b) = (self.term(u, w), self.term(v, w));
                            let e = self.cmp(*p, a, b);
                            out.push(self.norm(e));
                        }
                        V::A(Rc::new(out))
                    }
                    _ => {
                        let w = ty.bits();
                        let (a, b) = (self.term(&x, w), self.term(&y, w));
                        let e = self.cmp(*p, a, b);
                        self.norm(e)
                    }
                };
            }
            Ins::Cast(k, from, to, d, x) => {
                let x = self.op(fr, x);
                fr.regs[*d as usize] = self.cast(*k, from, to, x)?;
            }
            Ins::Gep(d, base, off, ix) => {
                let b = self.op(fr, base);
                let mut conc = match &b {
                    V::I(_, x) => Some((*x as u64).wrapping_add(*off)),
                    _ => None,
                };
                let mut idx = vec![];
                for (o, w, s) in ix {
                    let v = self.op(fr, o);
                    if let (Some(c), V::I(_, k)) = (conc, &v) {
                        conc = Some(c.wrapping_add((sext128(*k, *w) as u64).wrapping_mul(*s)));
                    } else {
                        conc = None;
                    }
                    idx.push((v, *w, *s));
                }
                fr.regs[*d as usize] = if let Some(c) = conc {
                    V::I(64, c as u128)
                } else if matches!(b, V::U) {
                    V::U
                } else {
                    let mut e = self.term(&b, 64);
                    let k = self.a.c(*off as u128, 64);
                    e = self.a.add(e, k);
                    for (v, w, s) in idx {
                        let t = self.term(&v, w);
                        let t = if w < 64 { self.a.sext(t, 64) } else { self.a.slice(t, 0, 64) };
                        let k = self.a.c(s as u128, 64);
                        let t = self.a.bop(Bop::Mul, t, k);
                        e = self.a.add(e, t);
                    }
                    self.norm(e)
                };
            }
            Ins::Load(d, ty, p) => {
                let p = self.op(fr, p);
                match self.load(st, &p, ty)? {
                    Ok(v) => fr.regs[*d as usize] = v,
                    Err(c) => return Ok(Flow::Fork(c)),
                }
            }
            Ins::Store(ty, v, p) => {
                let v = self.op(fr, v);
                let p = self.op(fr, p);
                if let Some(c) = self.store(st, &p, ty, &v)? {
                    return Ok(Flow::Fork(c));
                }
            }
            Ins::Alloca(d, size, n) => {
                let n = match self.op(fr, n) {
                    V::I(_, k) => k as u64,
                    _ => return self.unsup("dynamic alloca"),
                };
                let a = st.mem.alloc_stack(size * n);
                fr.regs[*d as usize] = V::I(64, a as u128);
            }
            Ins::Select(d, ty, c, x, y) => {
                let c = self.op(fr, c);
                let c = self.simpv(st, c);
                let (x, y) = (self.op(fr, x), self.op(fr, y));
                fr.regs[*d as usize] = match &c {
                    V::I(_, 1) => x,
                    V::I(_, _) => y,
                    V::S(e) => match self.sel(*e, &x, &y, ty)? {
                        Some(v) => v,
                        None => return Ok(Flow::Fork(*e)),
                    },
                    V::U => {
                        if x == y {
                            x
                        } else {
                            V::U
                        }
                    }
                    V::A(cs) => {
                        let (V::A(p), V::A(q)) = (&x, &y) else { return self.unsup("vector select") };
                        let Ty::Vec(_, t) = ty else { return self.unsup("vector select") };
                        let w = t.bits();
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                V::I(_, 1) => p[i].clone(),
                                V::I(_, _) => q[i].clone(),
                                V::S(e) => self.ite_v(*e, &p[i], &q[i], w),
                                _ => return self.unsup("vector select"),
                            });
                        }
                        V::A(Rc::new(out))
                    }
                };
            }
            Ins::ExtractValue(d, x, ix) => {
                let mut v = self.op(fr, x);
                for i in ix {
                    v = match v {
                        V::A(xs) => xs[*i as usize].clone(),
                        V::U => V::U,
                        _ => return self.unsup("extractvalue"),
                    };
                }
                fr.regs[*d as usize] = v;
            }
            Ins::InsertValue(d, ty, x, y, ix) => {
                let v = self.op(fr, x);
                let y = self.op(fr, y);
                fn ins(v: V, ty: &Ty, y: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return y;
                    }
                    let V::A(xs) = (if matches!(v, V::U) { Ctx::undef_of(ty) } else { v }) else { return V::U };
                    let mut xs = (*xs).clone();
                    let i = ix[0] as usize;
                    let t = match ty {
                        Ty::Struct(_, ts) => ts[i].clone(),
                        Ty::Arr(_, t) => (**t).clone(),
                        _ => Ty::Void,
                    };
                    xs[i] = ins(xs[i].clone(), &t, y, &ix[1..]);
                    V::A(Rc::new(xs))
                }
                fr.regs[*d as usize] = ins(v, ty, y, ix);
            }
            Ins::ExtractElement(d, _ty, x, k) => {
                let v = self.op(fr, x);
                let k = self.op(fr, k);
                fr.regs[*d as usize] = match (v, k) {
                    (V::A(xs), V::I(_, i)) => xs[i as usize].clone(),
                    (V::U, _) => V::U,
                    _ => return self.unsup("extractelement"),
                };
            }
            Ins::InsertElement(d, ty, x, y, k) => {
                let v = self.op(fr, x);
                let y = self.op(fr, y);
                let k = self.op(fr, k);
                let v = if matches!(v, V::U) { Self::undef_of(ty) } else { v };
                fr.regs[*d as usize] = match (v, k) {
                    (V::A(xs), V::I(_, i)) => {
                        let mut xs = (*xs).clone();
                        xs[i as usize] = y;
                        V::A(Rc::new(xs))
                    }
                    _ => return self.unsup("insertelement"),
                };
            }
            Ins::Shuffle(d, ty, x, y, m) => {
                let Ty::Vec(_, _) = ty else { return self.unsup("shuffle") };
                let fix = |v: V| if matches!(v, V::U) { Self::undef_of(ty) } else { v };
                let (x, y) = (fix(self.op(fr, x)), fix(self.op(fr, y)));
                let (V::A(p), V::A(q)) = (x, y) else { return self.unsup("shuffle") };
                let out = m
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            V::U
                        } else if (*i as usize) < p.len() {
                            p[*i as usize].clone()
                        } else {
                            q[*i as usize - p.len()].clone()
                        }
                    })
                    .collect();
                fr.regs[*d as usize] = V::A(Rc::new(out));
            }
            Ins::Freeze(d, x) => {
                let v = self.op(fr, x);
                // an undefined value stays undefined: every later use either does not matter or stops the run
                fr.regs[*d as usize] = v;
            }
            Ins::AtomicRmw(d, o, ty, p, v) => {
                let p = self.op(fr, p);
                let v = self.op(fr, v);
                let old = match self.load(st, &p, ty)? {
                    Ok(v) => v,
                    Err(c) => return Ok(Flow::Fork(c)),
                };
                let w = ty.bits();
                let nv = match o.as_str() {
                    "xchg" => v,
                    "add" => self.binop(Bop::Add, w, &old, &v)?,
                    "sub" => self.binop(Bop::Sub, w, &old, &v)?,
                    "or" => self.binop(Bop::Or, w, &old, &v)?,
                    "and" => self.binop(Bop::And, w, &old, &v)?,
                    _ => return self.unsup("atomicrmw"),
                };
                if let Some(c) = self.store(st, &p, ty, &nv)? {
                    return Ok(Flow::Fork(c));
                }
                fr.regs[*d as usize] = old;
            }
            Ins::CmpXchg(d, ty, p, c, n) => {
                let p = self.op(fr, p);
                let c = self.op(fr, c);
                let n = self.op(fr, n);
                let old = match self.load(st, &p, ty)? {
                    Ok(v) => v,
                    Err(c) => return Ok(Flow::Fork(c)),
                };
                let (V::I(_, a), V::I(_, b)) = (&old, &c) else { return self.unsup("symbolic cmpxchg") };
                let ok = a == b;
                if ok {
                    if let Some(c) = self.store(st, &p, ty, &n)? {
                        return Ok(Flow::Fork(c));
                    }
                }
                fr.regs[*d as usize] = V::A(Rc::new(vec![old, V::I(1, ok as u128)]));
            }
            Ins::Fence => {}
            Ins::Br(b) => return Ok(Flow::Jump(*b)),
            Ins::CondBr(c, x, y) => {
                let c = self.op(fr, c);
                match c {
                    V::I(_, k) => return Ok(Flow::Jump(if k == 1 { *x } else { *y })),
                    V::S(e) => {
                        let e2 = self.simp(st, e);
                        if e2 == self.a.t {
                            return Ok(Flow::Jump(*x));
                        }
                        if e2 == self.a.f {
                            return Ok(Flow::Jump(*y));
                        }
                        if x == y {
                            return Ok(Flow::Jump(*x));
                        }
                        return Ok(Flow::Fork(e2));
                    }
                    _ => {
                        if x == y {
                            return Ok(Flow::Jump(*x));
                        }
                        return self.unsup("branch on undefined value");
                    }
                }
            }
            Ins::Switch(w, v, d, cs) => {
                let v = self.op(fr, v);
                let v = self.simpv(st, v);
                match v {
                    V::I(_, k) => {
                        let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        return Ok(Flow::Jump(t));
                    }
                    V::S(e) => {
                        // group cases by target; fork on the first undecided group
                        let mut by: Vec<(u32, Vec<E>)> = vec![];
                        for (k, t) in cs {
                            let kc = self.a.c(*k, *w);
                            let q = self.a.eq(e, kc);
                            match by.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1.push(q),
                                None => by.push((*t, vec![q])),
                            }
                        }
                        let mut live = vec![];
                        for (t, qs) in by {
                            let c = self.a.or_all(&qs);
                            let c = self.simp(st, c);
                            if c == self.a.t {
                                return Ok(Flow::Jump(t));
                            }
                            if c == self.a.f || !self.feas(st, c)? {
                                continue;
                            }
                            let nc = self.a.not(c);
                            if !self.feas(st, nc)? {
                                return Ok(Flow::Jump(t));
                            }
                            live.push((t, c));
                        }
                        match live.first() {
                            None => return Ok(Flow::Jump(*d)),
                            Some((_, c)) => return Ok(Flow::Fork(*c)),
                        }
                    }
                    _ => return self.unsup("switch on undefined value"),
                }
            }
            Ins::Ret(v) => {
                fr.ret = match v {
                    Some((_, o)) => self.op(fr, o),
                    None => V::U,
                };
                return Ok(Flow::Ret);
            }
            Ins::Unreachable => {
                // reached only after a diverging call; anything else would be undefined behaviour
                let lits = st.pc.clone();
                if self.s.check(&mut self.a, &lits) == Sat::Unsat {
                    return Ok(Flow::End);
                }
                return self.unsup("unreachable reached");
            }
            Ins::Float(d, name, rt, ops) => {
                let mut cs = vec![];
                for (ty, o) in ops {
                    let v = self.op(fr, o);
                    if matches!(v, V::A(_)) {
                        return self.unsup("vector float operation");
                    }
                    match self.concretise(st, v)? {
                        Ok(x) => cs.push((ty.clone(), x)),
                        Err(c) => return self.split(c),
                    }
                }
                match float_op(name, rt, &cs) {
                    Some(x) => fr.regs[*d as usize] = V::I(rt.bits(), x),
                    None => return self.unsup(format!("float operation {name}")),
                }
            }
            Ins::Unsupported(s) => return self.unsup(format!("instruction: {s}")),
            Ins::Call(d, rt, callee, args, nd) => return self.do_call(fr, st, d, rt, callee, args, nd),
        }
        Ok(Flow::Next)
    }
    fn sel(&mut self, c: E, x: &V, y: &V, ty: &Ty) -> X<Option<V>> {
        if x == y {
            return Ok(Some(x.clone()));
        }
        match (x, y) {
            (V::U, v) | (v, V::U) => Ok(Some(v.clone())),
            (V::A(_), _) | (_, V::A(_)) => {
                let V::A(p) = x else { return Ok(None) };
                let V::A(q) = y else { return Ok(None) };
                let mut out = vec![];
                for i in 0..p.len() {
                    let t = match ty {
                        Ty::Struct(_, ts) => ts[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => return Ok(None),
                    };
                    match self.sel(c, &p[i], &q[i], &t)? {
                        Some(v) => out.push(v),
                        None => return Ok(None),
                    }
                }
                Ok(Some(V::A(Rc::new(out))))
            }
            _ => Ok(Some(self.ite_v(c, x, y, ty.bits()))),
        }
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, x: V) -> X<V> {
        if matches!(x, V::U) {
            return Ok(Self::undef_of(to));
        }
        if let (V::A(xs), Ty::Vec(n, ft)) = (&x, from) {
            if k == CastK::Bitcast {
                let w = from.bits();
                if xs.iter().all(|v| matches!(v, V::U)) {
                    return Ok(Self::undef_of(to));
                }
                let e = self.term(&x, w);
                if let Ty::Vec(m, tt) = to {
                    let ew = tt.bits();
                    let v: Vec<V> = (0..*m)
                        .map(|i| {
                            let s = self.a.slice(e, i * ew, ew);
                            self.norm(s)
                        })
                        .collect();
                    return Ok(V::A(Rc::new(v)));
                }
                return Ok(self.norm(e));
            }
            let Ty::Vec(_, tt) = to else { return self.unsup("vector cast") };
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.cast(k, ft, tt, xs[i].clone())?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if let (Ty::Vec(m, tt), CastK::Bitcast) = (to, k) {
            let e = self.term(&x, from.bits());
            let ew = tt.bits();
            let v: Vec<V> = (0..*m)
                .map(|i| {
                    let s = self.a.slice(e, i * ew, ew);
                    self.norm(s)
                })
                .collect();
            return Ok(V::A(Rc::new(v)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        match (&x, k) {
            (_, CastK::Bitcast) => Ok(x),
            (V::I(_, v), CastK::Sext) if tw <= 128 => Ok(V::I(tw, mask(sext128(*v, fw) as u128, tw))),
            (V::I(_, v), CastK::Zext) if tw <= 128 => Ok(V::I(tw, *v)),
            (V::I(_, v), CastK::Trunc) => Ok(V::I(tw, mask(*v, tw))),
            (V::I(_, v), CastK::PtrToInt | CastK::IntToPtr) => Ok(V::I(tw, mask(*v, tw))),
            _ => {
                let e = self.term(&x, fw);
                let r = match k {
                    CastK::Sext => self.a.sext(e, tw),
                    CastK::Zext => self.a.zext(e, tw),
                    CastK::Trunc => self.a.slice(e, 0, tw),
                    _ => {
                        if tw < fw {
                            self.a.slice(e, 0, tw)
                        } else {
                            self.a.zext(e, tw)
                        }
                    }
                };
                Ok(self.norm(r))
            }
        }
    }
    fn binop(&mut self, op: Bop, w: u32, x: &V, y: &V) -> X<V> {
        match (x, y) {
            (V::I(_, a), V::I(_, b)) if w <= 128 => {
                if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) && *b == 0 {
                    return self.unsup("division by zero");
                }
                Ok(V::I(w, cbop(op, *a, *b, w)))
            }
            (V::U, V::I(_, 0)) | (V::I(_, 0), V::U) if op == Bop::And => Ok(V::I(w, 0)),
            // an undefined part of a value put together from parts: taken as zero
            (V::U, V::U) => Ok(V::U),
            (V::U, v) | (v, V::U) if op == Bop::Or => Ok(v.clone()),
            (V::U, _) | (_, V::U) => Ok(V::U),
            _ => {
                let (a, b) = (self.term(x, w), self.term(y, w));
                let e = match (op, w) {
                    (Bop::And, 1) => self.a.and2(a, b),
                    (Bop::Or, 1) => self.a.or2(a, b),
                    (Bop::Xor, 1) => {
                        let q = self.a.eq(a, b);
                        self.a.not(q)
                    }
                    _ => self.a.bop(op, a, b),
                };
                Ok(self.norm(e))
            }
        }
    }

    fn builtin(&mut self, name: &str) -> B {
        if let Some(b) = self.builtins.get(name) {
            return *b;
        }
        let b = classify(name, self.m.funcs.contains_key(name));
        self.builtins.insert(name.to_string(), b);
        b
    }
    fn cstr(&mut self, st: &mut State, p: &V, n: &V) -> X<String> {
        let (V::I(_, p), V::I(_, n)) = (p, n) else { return self.unsup("symbolic string") };
        let c = self.read_cells(st, *p as u64, *n as u64)?;
        Ok(c.iter().map(|x| *x as u8 as char).collect())
    }
    fn need(&mut self, st: &State, v: &V) -> X<Result<u64, E>> {
        Ok(self.concretise(st, v.clone())?.map(|x| x as u64))
    }

    fn do_call(&mut self, fr: &mut Frame, st: &mut State, d: &Option<u32>, rt: &Ty, callee: &Callee, args: &[(Ty, Op)], nd: &Option<u32>) -> X<Flow> {
        let name: String = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Indirect(o) => {
                let v = self.op(fr, o);
                let a = match self.need(st, &v)? {
                    Ok(a) => a,
                    Err(c) => return Ok(Flow::Fork(c)),
                };
                match self.m.fn_addr.get(&a) {
                    Some(n) => n.clone(),
                    None => return self.unsup(format!("indirect call to {a:#x}")),
                }
            }
        };
        let name = self.m.aliases.get(&name).cloned().unwrap_or(name);
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (_, o) in args {
            av.push(self.op(fr, o));
        }
        macro_rules! conc {
            ($v:expr) => {
                match self.need(st, &$v)? {
                    Ok(a) => a,
                    Err(c) => return Ok(Flow::Fork(c)),
                }
            };
        }
        let mut ret = V::U;
        let mut name = name;
        // Formatting: nothing is written; a one-field tuple formats its field.
        while self.builtin(&name) == B::FmtField {
            let vt = conc!(av[4]);
            let c = self.load_conc(st, vt + 24, &Ty::Ptr)?;
            let a = conc!(c);
            name = match self.m.fn_addr.get(&a) {
                Some(n) => self.m.aliases.get(n).cloned().unwrap_or(n.clone()),
                None => return self.unsup(format!("formatting by {a:#x}")),
            };
            av = vec![av[3].clone(), av[0].clone()];
        }
        match self.builtin(&name) {
            B::FmtNop | B::FmtField => {
                if !matches!(rt, Ty::Void) {
                    ret = V::I(rt.bits(), 0);
                }
            }
            B::VpFormatter => ret = V::I(64, st.mem.alloc_heap(64, true) as u128),
            B::Func => {
                let f = self.m.func(&name).map_err(Stop::Unsupported)?;
                if self.trace > 2 {
                    eprintln!("{}call {name}", "  ".repeat(self.stack.len().min(40)));
                }
                let s0 = std::mem::replace(st, self.dummy());
                let mut rs = self.call(f, av, s0)?;
                if rs.is_empty() {
                    return Ok(Flow::End);
                }
                if rs.len() == 1 && nd.is_none() {
                    let (s, v) = rs.pop().unwrap();
                    *st = s;
                    if let Some(d) = d {
                        fr.regs[*d as usize] = v;
                    }
                    return Ok(Flow::Next);
                }
                if nd.is_some() {
                    return self.unsup("invoke");
                }
                return Ok(Flow::Many(rs, *d));
            }
            B::Nop => {}
            B::LifetimeEnd => {
                let p = av.last().unwrap().clone();
                if let V::I(_, a) = p {
                    let a = a as u64;
                    if (a >> 32) != 0 && a & 0xffff_ffff == 0 {
                        if let Some(o) = st.mem.slot(a >> 32).as_mut() {
                            if o.cells.iter().any(|c| *c != UNDEF) {
                                let n = o.cells.len();
                                let k = o.kind;
                                *o = Rc::new(Obj { kind: k, cells: vec![UNDEF; n] });
                            }
                        }
                    }
                }
            }
            B::Assume => {}
            B::Alloc | B::AllocZ => {
                let n = conc!(av[0]);
                if n > 1 << 24 {
                    return self.unsup(format!("allocation of {n} bytes"));
                }
                let z = self.builtin(&name) == B::AllocZ;
                ret = V::I(64, st.mem.alloc_heap(n, z) as u128);
            }
            B::Dealloc => {
                let p = conc!(av[0]);
                let id = p >> 32;
                if !(id >= HEAP_BASE && id < GLOB_BASE) || st.mem.obj(id).is_none() {
                    return self.unsup(format!("dealloc of {p:#x}"));
                }
                *st.mem.slot(id) = None;
            }
            B::Realloc => {
                let p = conc!(av[0]);
                let n = conc!(av[3]);
                let id = p >> 32;
                let Some(o) = st.mem.obj(id).cloned() else { return self.unsup("realloc of a dead object") };
                let q = st.mem.alloc_heap(n, false);
                let k = (n as usize).min(o.cells.len());
                self.write_cells(st, q, &o.cells[..k])?;
                *st.mem.slot(id) = None;
                ret = V::I(64, q as u128);
            }
            B::Memcpy => {
                let n = conc!(av[2]);
                if n > 0 {
                    // source may be a choice between two objects
                    let dst = conc!(av[0]);
                    let src = self.simpv(st, av[1].clone());
                    let cells = match &src {
                        V::S(e) => {
                            let e = *e;
                            let mut leaves = vec![];
                            let mut got = None;
                            if self.ite_leaves(e, &mut leaves, 8) {
                                let mut ok = true;
                                for l in &leaves {
                                    if !self.valid(st, *l, n)? {
                                        ok = false;
                                        break;
                                    }
                                }
                                if ok {
                                    got = self.mux_cells(st, e, n, &mut Default::default())?;
                                }
                            }
                            match got {
                                Some(c) => c,
                                None => {
                                    let a = conc!(src);
                                    self.read_cells(st, a, n)?
                                }
                            }
                        }
                        V::I(_, a) => self.read_cells(st, *a as u64, n)?,
                        _ => return self.unsup("memcpy from undefined address"),
                    };
                    self.write_cells(st, dst, &cells)?;
                }
                if name == "memcpy" || name == "memmove" {
                    ret = av[0].clone();
                }
            }
            B::Memset => {
                let n = conc!(av[2]);
                let p = conc!(av[0]);
                let mut cells = vec![];
                match &av[1] {
                    V::I(_, b) => cells.resize(n as usize, *b as u8 as Cell),
                    V::S(e) => {
                        let e8 = self.a.slice(*e, 0, 8);
                        for _ in 0..n {
                            self.term_cells(e8, &mut cells);
                        }
                    }
                    _ => cells.resize(n as usize, UNDEF),
                }
                self.write_cells(st, p, &cells)?;
                ret = av[0].clone();
            }
            B::Bcmp => {
                let n = conc!(av[2]);
                let (p, q) = (conc!(av[0]), conc!(av[1]));
                let x = self.read_cells(st, p, n)?;
                let y = self.read_cells(st, q, n)?;
                let (x, y) = (self.cells_term(&x), self.cells_term(&y));
                let e = self.a.eq(x, y);
                let (z, o) = (self.a.c(0, 32), self.a.c(1, 32));
                let r = self.a.ite(e, z, o);
                ret = self.norm(r);
            }
            B::Memcmp => {
                let n = conc!(av[2]);
                let (p, q) = (conc!(av[0]), conc!(av[1]));
                let mut x = self.read_cells(st, p, n)?;
                let mut y = self.read_cells(st, q, n)?;
                let (ex, ey) = (self.cells_term(&x), self.cells_term(&y));
                let e = self.a.eq(ex, ey);
                x.reverse();
                y.reverse();
                let (bx, by) = (self.cells_term(&x), self.cells_term(&y));
                let (z, o, m1) = (self.a.c(0, 32), self.a.c(1, 32), self.a.c(0xffff_ffff, 32));
                let r = if e == self.a.t {
                    z
                } else {
                    let l = self.a.ult(bx, by);
                    let r = self.a.ite(l, m1, o);
                    self.a.ite(e, z, r)
                };
                ret = self.norm(r);
            }
            B::Strlen => return self.unsup("strlen"),
            B::Trap => return self.panic_path(st, "trap", &av, &name),
            B::Panic => return self.panic_path(st, "panic", &av, &name),
            B::Unknown => return self.unsup(format!("call of {name}")),
            B::Float => {
                let mut cs = vec![];
                for (v, (ty, _)) in av.iter().zip(args) {
                    match self.concretise(st, v.clone())? {
                        Ok(x) => cs.push((ty.clone(), x)),
                        Err(c) => return self.split(c),
                    }
                }
                match float_op(&name, rt, &cs) {
                    Some(x) => ret = V::I(rt.bits(), x),
                    None => return self.unsup(format!("float operation {name}")),
                }
            }
            B::Intr(k) => {
                let ty = &args[0].0;
                match self.intrinsic(st, INTR[k as usize], ty, rt, &av)? {
                    Ok(v) => ret = v,
                    Err(c) => return Ok(Flow::Fork(c)),
                }
            }
            B::VpSym => {
                let tag = conc!(av[0]) as u32;
                let p = conc!(av[1]);
                let n = conc!(av[2]) as u32;
                if n > 0 {
                    self.sym_sizes.insert((tag, n));
                    let v = self.a.var(&format!("s{tag}_{n}"), 8 * n);
                    let cells: Vec<Cell> = (0..n).map(|i| sym_cell(v, i)).collect();
                    self.write_cells(st, p, &cells)?;
                }
            }
            B::VpChoose => {
                let tag = conc!(av[0]) as u32;
                let n = conc!(av[1]);
                if let Some(x) = st.choices.iter().find(|c| c.0 == tag) {
                    ret = V::I(64, x.1 as u128);
                } else {
                    let mut rs = vec![];
                    let only = self.fixed.iter().find(|c| c.0 == tag).map(|c| c.1);
                    for k in (0..n).filter(|k| only.is_none_or(|o| o == *k)) {
                        let mut s = st.clone();
                        s.choices.push((tag, k));
                        rs.push((s, V::I(64, k as u128)));
                    }
                    return Ok(Flow::Many(rs, *d));
                }
            }
            B::VpMark => {
                let tag = conc!(av[0]) as u32;
                let n = conc!(av[1]);
                st.choices.push((tag, n));
            }
            B::VpParam => {
                let i = conc!(av[0]) as usize;
                let Some(x) = self.params.get(i) else { return self.unsup(format!("parameter {i} not given")) };
                ret = V::I(64, *x as u128);
            }
            B::VpAssume => {
                let c = match &av[0] {
                    V::U => return self.unsup("assume undefined"),
                    v => {
                        let v = v.clone();
                        self.bool_of(&v)
                    }
                };
                let c = self.simp(st, c);
                if c == self.a.f || !self.feas(st, c)? {
                    return Ok(Flow::End);
                }
                self.add_pc(st, c);
            }
            B::VpAssert => {
                let id = self.cstr(st, &av[1], &av[2])?;
                let v = av[0].clone();
                if v == V::U {
                    return self.unsup("assert of an undefined value");
                }
                let c = self.bool_of(&v);
                self.assert(st, c, &id)?;
            }
            B::VpAssertEq => {
                let n = conc!(av[2]);
                let (p, q) = (conc!(av[0]), conc!(av[1]));
                let id = self.cstr(st, &av[3], &av[4])?;
                let x = self.read_cells(st, p, n)?;
                let y = self.read_cells(st, q, n)?;
                let (x, y) = (self.cells_term(&x), self.cells_term(&y));
                let c = self.a.eq(x, y);
                self.assert(st, c, &id)?;
            }
            B::VpEq => {
                let n = conc!(av[2]);
                let (p, q) = (conc!(av[0]), conc!(av[1]));
                let x = self.read_cells(st, p, n)?;
                let y = self.read_cells(st, q, n)?;
                let (x, y) = (self.cells_term(&x), self.cells_term(&y));
                let c = self.a.eq(x, y);
                let c = self.simp(st, c);
                let c8 = if *rt == Ty::Int(1) { c } else { self.a.zext(c, rt.bits()) };
                ret = self.norm(c8);
            }
            B::VpSelect => {
                // (cond, p, q, out, len)
                let n = conc!(av[4]);
                let (p, q, o) = (conc!(av[1]), conc!(av[2]), conc!(av[3]));
                let c0 = av[0].clone();
                let c = self.bool_of(&c0);
                let c = self.simp(st, c);
                let x = self.read_cells(st, p, n)?;
                let y = self.read_cells(st, q, n)?;
                let cells = if c == self.a.t {
                    x
                } else if c == self.a.f {
                    y
                } else {
                    let s = st.clone();
                    match self.merge_cells(c, &s, &s, &x, &y) {
                        Some(z) => z,
                        None => return Ok(Flow::Fork(c)),
                    }
                };
                self.write_cells(st, o, &cells)?;
            }
            B::VpFind => {
                // (array of record pointers, count, key, len) -> index of the last match or -1
                let (base, count, key, n) = (conc!(av[0]), conc!(av[1]), conc!(av[2]), conc!(av[3]));
                let k = self.read_cells(st, key, n)?;
                let k = self.cells_term(&k);
                let mut hits = vec![];
                for i in (0..count).rev() {
                    let p = match self.load_conc(st, base + 8 * i, &Ty::Ptr)? {
                        V::I(_, p) => p as u64,
                        _ => return self.unsup("record pointer is not concrete"),
                    };
                    self.ensure_glob(st, p)?;
                    let Some(c) = st.mem.read(p, n) else { return self.unsup("invalid record pointer") };
                    let x = match self.rec_memo.get(c) {
                        Some(x) => *x,
                        None => {
                            let c = c.to_vec();
                            let x = self.cells_term(&c);
                            self.rec_memo.insert(c.into(), x);
                            x
                        }
                    };
                    let e = self.a.eq(x, k);
                    let e = self.simp(st, e);
                    if e == self.a.f {
                        continue;
                    }
                    hits.push((e, i));
                    if e == self.a.t {
                        break;
                    }
                }
                let mut acc = self.a.c(u64::MAX as u128, 64);
                for (e, i) in hits.into_iter().rev() {
                    let c = self.a.c(i as u128, 64);
                    acc = self.a.ite(e, c, acc);
                }
                ret = self.norm(acc);
            }
            B::VpHash => {
                let p = conc!(av[0]);
                let n = conc!(av[1]);
                let o = conc!(av[2]);
                let c = self.read_cells(st, p, n)?;
                if c.iter().any(|x| *x == UNDEF) {
                    return self.unsup("hash of undefined bytes");
                }
                let m = self.cells_term(&c);
                let h = self.a.hash(m);
                let mut out = vec![];
                self.term_cells(h, &mut out);
                self.write_cells(st, o, &out)?;
            }
            B::VpObserve => {
                let tag = self.cstr(st, &av[0], &av[1])?;
                let n = conc!(av[3]);
                let p = conc!(av[2]);
                let c = self.read_cells(st, p, n)?;
                let e = self.cells_term(&c);
                st.obs.push(Obs { tag, val: e });
            }
            B::VpCover => {
                let id = self.cstr(st, &av[0], &av[1])?;
                if !self.covers.contains_key(&id) {
                    let lits = st.pc.clone();
                    if self.s.check(&mut self.a, &lits) == Sat::Sat {
                        self.covers.insert(id, 1);
                    }
                } else {
                    *self.covers.get_mut(&id).unwrap() += 1;
                }
            }
        }
        if let Some(d) = d {
            fr.regs[*d as usize] = ret;
        }
        if let Some(b) = nd {
            return Ok(Flow::Jump(*b));
        }
        Ok(Flow::Next)
    }
    fn dummy(&self) -> State {
        State { mem: Mem::new(), pc: vec![], lits: Rc::new(Default::default()), ver: 0, obs: vec![], choices: vec![], steps: 0 }
    }
    fn mux_cells(&mut self, st: &mut State, e: E, n: u64, memo: &mut FxMap<E, Vec<Cell>>) -> X<Option<Vec<Cell>>> {
        if let Some(c) = memo.get(&e) {
            return Ok(Some(c.clone()));
        }
        let r = match *self.a.node(e) {
            N::Ite(c, x, y) => {
                let (Some(p), Some(q)) = (self.mux_cells(st, x, n, memo)?, self.mux_cells(st, y, n, memo)?) else { return Ok(None) };
                let s = st.clone();
                self.merge_cells(c, &s, &s, &p, &q)
            }
            _ => {
                let a = self.a.as_u(e).unwrap() as u64;
                Some(self.read_cells(st, a, n)?)
            }
        };
        if let Some(c) = &r {
            memo.insert(e, c.clone());
        }
        Ok(r)
    }
    fn bool_of(&mut self, v: &V) -> E {
        match v {
            V::I(_, x) => self.a.b(*x & 1 == 1),
            V::S(e) => self.a.slice(*e, 0, 1),
            _ => self.a.f,
        }
    }
    fn panic_path(&mut self, st: &mut State, kind: &str, av: &[V], name: &str) -> X<Flow> {
        let lits = st.pc.clone();
        match self.s.check(&mut self.a, &lits) {
            Sat::Unsat => return Ok(Flow::End),
            Sat::Unknown => return self.unsup("solver gave no answer for a panic path"),
            Sat::Sat => {}
        }
        // location: last argument that points to { ptr, len, line, col }
        let mut loc = String::new();
        for v in av.iter().rev() {
            if let V::I(64, a) = v {
                let a = *a as u64;
                if self.valid(st, a, 24).unwrap_or(false) {
                    if let (Ok(V::I(_, p)), Ok(V::I(_, n)), Ok(V::I(_, l))) =
                        (self.load_conc(st, a, &Ty::Ptr), self.load_conc(st, a + 8, &Ty::Int(64)), self.load_conc(st, a + 16, &Ty::Int(32)))
                    {
                        if n > 0 && n < 300 && self.valid(st, p as u64, n as u64).unwrap_or(false) {
                            if let Ok(s) = self.cstr(st, &V::I(64, p), &V::I(64, n)) {
                                loc = format!("{s}:{l}");
                                break;
                            }
                        }
                    }
                }
            }
        }
        let id = format!("{kind} {} at {loc}", short(name));
        self.report(&id, "panic", &lits, st);
        Err(Stop::Violation)
    }
    fn assert(&mut self, st: &mut State, c: E, id: &str) -> X<()> {
        *self.assert_ids.entry(id.to_string()).or_insert(0) += 1;
        let c = self.simp(st, c);
        if c == self.a.t {
            self.asserts_struct += 1;
            return Ok(());
        }
        self.asserts_smt += 1;
        let nc = self.a.not(c);
        match self.s.feasible(&mut self.a, &st.pc, nc) {
            Sat::Unsat => Ok(()),
            Sat::Unknown => self.unsup(format!("solver gave no answer for assertion {id}")),
            Sat::Sat => {
                let mut lits = st.pc.clone();
                lits.push(nc);
                if self.s.check(&mut self.a, &lits) == Sat::Unsat {
                    return Ok(()); // the path condition itself was only assumed feasible
                }
                self.report(id, "assert", &lits, st);
                Err(Stop::Violation)
            }
        }
    }

    // ------------------------------------------------------------------ models
    /// A model of the literals under the real hash function.
    pub fn real_model(&mut self, lits: &[E], tries: usize) -> Option<(Model, bool)> {
        let mut block: Vec<E> = vec![];
        let mut last: Option<Model> = None;
        for _ in 0..tries {
            let mut pins: Vec<E> = vec![];
            let mut pinned: FxSet<E> = Default::default();
            let mut first_pin: Option<E> = None;
            loop {
                let mut m: Model = Default::default();
                let mut q = lits.to_vec();
                q.extend_from_slice(&block);
                q.extend_from_slice(&pins);
                if self.s.check_model(&mut self.a, &q, Some(&mut m)) != Sat::Sat {
                    break;
                }
                let mut memo: FxMap<E, Big> = Default::default();
                let a = &self.a;
                let env = |i: u32| m.get(&i).cloned().unwrap_or_else(|| Big::from_u128(0, a.vars[i as usize].w));
                let ok = lits.iter().all(|l| !a.eval(*l, &env, &mut memo).is_zero());
                if ok {
                    // variables the query does not mention may take any value
                    let mut full = m.clone();
                    for (i, v) in a.vars.iter().enumerate() {
                        if !full.contains_key(&(i as u32)) {
                            let mut b = vec![0u8; (v.w as usize + 7) / 8];
                            let mut x = 0x9e3779b97f4a7c15u64 ^ self.seed;
                            for c in v.name.bytes() {
                                x = (x ^ c as u64).wrapping_mul(0x100000001b3);
                            }
                            for y in b.iter_mut() {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                *y = (x >> 32) as u8;
                            }
                            full.insert(i as u32, Big::from_bytes(&b));
                        }
                    }
                    let mut memo: FxMap<E, Big> = Default::default();
                    let env = |i: u32| full[&i].clone();
                    if lits.iter().all(|l| !a.eval(*l, &env, &mut memo).is_zero()) {
                        m = full;
                    }
                    return Some((m, true));
                }
                last = Some(m.clone());
                // innermost unpinned hash anywhere below the query
                let mut hs: Vec<E> = vec![];
                let mut seen: FxSet<E> = Default::default();
                let mut todo: Vec<E> = lits.to_vec();
                while let Some(x) = todo.pop() {
                    if !seen.insert(x) {
                        continue;
                    }
                    if let N::Hash(_) = a.node(x) {
                        hs.push(x);
                    }
                    a.children(x, &mut |c| todo.push(c));
                }
                hs.sort_unstable();
                let Some(&h) = hs.iter().find(|h| !pinned.contains(h)) else { break };
                pinned.insert(h);
                let N::Hash(msg) = *a.node(h) else { unreachable!() };
                let mv = a.eval(msg, &env, &mut memo);
                let hv = a.eval(h, &env, &mut memo);
                let mw = self.a.width(msg);
                let mc = self.a.cbig(mv, mw);
                let hc = self.a.cbig(hv, 256);
                let p = self.a.eq(msg, mc);
                if first_pin.is_none() && p != self.a.t {
                    first_pin = Some(p);
                }
                pins.push(p);
                let q = self.a.eq(h, hc);
                pins.push(q);
            }
            match first_pin {
                Some(p) => {
                    let n = self.a.not(p);
                    block.push(n);
                }
                None => break,
            }
        }
        last.map(|m| (m, false))
    }
    /// Models of the path on which the exploration gave up.
    pub fn probe(&mut self) -> Vec<Vec<String>> {
        let Some(st) = self.undecided.take() else { return vec![] };
        let mut out: Vec<Vec<String>> = vec![];
        let seed = self.seed;
        let t0 = std::time::Instant::now();
        for k in 0..8 {
            if t0.elapsed().as_secs() > 20 {
                break;
            }
            self.seed = seed.wrapping_add(k).wrapping_mul(0x9e3779b97f4a7c15);
            let lits = st.pc.clone();
            let Some((m, _)) = self.real_model(&lits, 2) else { break };
            let l = self.model_lines(&m, &st);
            if !out.contains(&l) {
                out.push(l);
            }
        }
        self.seed = seed;
        out
    }
    pub fn model_lines(&self, m: &Model, st: &State) -> Vec<String> {
        let mut v = vec![];
        for (i, x) in self.params.iter().enumerate() {
            v.push(format!("param {i} {x}"));
        }
        for (t, k) in &st.choices {
            v.push(format!("choose {t} {k}"));
        }
        for (t, n) in &self.sym_sizes {
            let name = format!("s{t}_{n}");
            let mut bytes = vec![0u8; *n as usize];
            for (i, vi) in self.a.vars.iter().enumerate() {
                if vi.name == name {
                    if let Some(b) = m.get(&(i as u32)) {
                        bytes = b.to_bytes(8 * n);
                    }
                }
            }
            v.push(format!("sym {t} {}", hex(&bytes)));
        }
        v
    }
    fn report(&mut self, id: &str, kind: &str, lits: &[E], st: &State) {
        let (m, real) = self.real_model(lits, 32).unwrap_or_default();
        let model = self.model_lines(&m, st);
        self.violations.push(Violation { id: id.to_string(), kind: kind.to_string(), model, realised: real });
    }

    /// Run a harness from an empty state.
    pub fn entry(&mut self, name: &str) -> X<()> {
        let f = self.m.func(name).map_err(Stop::Unsupported)?;
        let mut st = self.dummy();
        self.ver += 1;
        st.ver = self.ver;
        let rs = self.call(f, vec![], st)?;
        for (s, _) in rs {
            self.paths += 1;
            let lits = s.pc.clone();
            if self.lim.samples > 0 && self.paths.is_power_of_two() {
                if let Some((m, true)) = self.real_model(&lits, 4) {
                    let mut obs = vec![];
                    let mut memo: FxMap<E, Big> = Default::default();
                    let a = &self.a;
                    for o in &s.obs {
                        let env = |i: u32| m.get(&i).cloned().unwrap_or_else(|| Big::from_u128(0, a.vars[i as usize].w));
                        let b = a.eval(o.val, &env, &mut memo);
                        obs.push((o.tag.clone(), hex(&b.to_bytes(a.width(o.val)))));
                    }
                    let model = self.model_lines(&m, &s);
                    if self.samples.len() == self.lim.samples {
                        self.samples.remove(0);
                    }
                    self.samples.push(Sample { model, obs });
                }
            } else if self.s.check(&mut self.a, &lits) == Sat::Unsat {
                self.paths -= 1;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, st: &State, n: &str, ty: &Ty, rt: &Ty, av: &[V]) -> X<Result<V, E>> {
        if n == "is.constant" {
            return Ok(Ok(V::I(1, 0)));
        }
        if n == "expect" {
            return Ok(Ok(av[0].clone()));
        }
        if let Ty::Vec(_, t) = ty {
            // elementwise
            let V::A(xs) = &av[0] else { return self.unsup("vector intrinsic") };
            let mut out = vec![];
            let rt2 = if let Ty::Vec(_, r) = rt { (**r).clone() } else { return self.unsup("vector intrinsic") };
            for i in 0..xs.len() {
                let mut a2 = vec![];
                for v in av {
                    a2.push(match v {
                        V::A(ys) => ys[i].clone(),
                        v => v.clone(),
                    });
                }
                match self.intrinsic(st, n, t, &rt2, &a2)? {
                    Ok(v) => out.push(v),
                    Err(c) => return Ok(Err(c)),
                }
            }
            return Ok(Ok(V::A(Rc::new(out))));
        }
        let w = ty.bits();
        if av.iter().any(|v| matches!(v, V::U)) {
            return Ok(Ok(Self::undef_of(rt)));
        }
        let x = self.term(&av[0], w);
        let y = if av.len() > 1 && n != "cttz" && n != "ctlz" && n != "abs" { self.term(&av[1], w) } else { x };
        let pair = |c: &mut Ctx, v: E, o: E| {
            let (p, q) = (c.norm(v), c.norm(o));
            V::A(Rc::new(vec![p, q]))
        };
        let r = match n {
            "fshl" | "fshr" => {
                let z = self.term(&av[2], w);
                let z = self.simp(st, z);
                match self.a.as_u(z) {
                    Some(k) => {
                        let k = (k % w as u128) as u32;
                        let cat = self.a.concat(&[y, x]);
                        if n == "fshl" {
                            self.a.slice(cat, w - k, w)
                        } else {
                            self.a.slice(cat, k, w)
                        }
                    }
                    None => {
                        let ww = self.a.c(w as u128, w);
                        let k = self.a.bop(Bop::URem, z, ww);
                        let cat = self.a.concat(&[y, x]);
                        let k2 = self.a.zext(k, 2 * w);
                        if n == "fshl" {
                            let s = self.a.bop(Bop::Shl, cat, k2);
                            self.a.slice(s, w, w)
                        } else {
                            let s = self.a.bop(Bop::LShr, cat, k2);
                            self.a.slice(s, 0, w)
                        }
                    }
                }
            }
            "umax" => {
                let c = self.a.ult(x, y);
                self.a.ite(c, y, x)
            }
            "umin" => {
                let c = self.a.ult(x, y);
                self.a.ite(c, x, y)
            }
            "smax" => {
                let c = self.a.slt(x, y);
                self.a.ite(c, y, x)
            }
            "smin" => {
                let c = self.a.slt(x, y);
                self.a.ite(c, x, y)
            }
            "uadd.with.overflow" => {
                let s = self.a.add(x, y);
                let o = self.a.ult(s, x);
                return Ok(Ok(pair(self, s, o)));
            }
            "usub.with.overflow" => {
                let s = self.a.bop(Bop::Sub, x, y);
                let o = self.a.ult(x, y);
                return Ok(Ok(pair(self, s, o)));
            }
            "umul.with.overflow" => {
                let (x2, y2) = (self.a.zext(x, 2 * w), self.a.zext(y, 2 * w));
                let s2 = self.a.bop(Bop::Mul, x2, y2);
                let s = self.a.bop(Bop::Mul, x, y);
                let hi = self.a.slice(s2, w, w);
                let z = self.a.zero(w);
                let e = self.a.eq(hi, z);
                let o = self.a.not(e);
                return Ok(Ok(pair(self, s, o)));
            }
            "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let k = if n.starts_with("smul") { 2 * w } else { w + 1 };
                let (x2, y2) = (self.a.sext(x, k), self.a.sext(y, k));
                let op = match &n[..4] {
                    "sadd" => Bop::Add,
                    "ssub" => Bop::Sub,
                    _ => Bop::Mul,
                };
                let s2 = self.a.bop(op, x2, y2);
                let s = self.a.bop(op, x, y);
                let b = self.a.sext(s, k);
                let e = self.a.eq(s2, b);
                let o = self.a.not(e);
                return Ok(Ok(pair(self, s, o)));
            }
            "uadd.sat" => {
                let s = self.a.add(x, y);
                let o = self.a.ult(s, x);
                let m = self.a.ones(w);
                self.a.ite(o, m, s)
            }
            "usub.sat" => {
                let s = self.a.bop(Bop::Sub, x, y);
                let o = self.a.ult(x, y);
                let z = self.a.zero(w);
                self.a.ite(o, z, s)
            }
            "cttz" | "ctlz" => {
                let mut acc = self.a.c(w as u128, w);
                for i in 0..w {
                    // last assignment wins: the lowest (cttz) or highest (ctlz) set bit
                    let bit = if n == "cttz" { w - 1 - i } else { i };
                    let b = self.a.slice(x, bit, 1);
                    let k = if n == "cttz" { bit } else { w - 1 - bit };
                    let k = self.a.c(k as u128, w);
                    acc = self.a.ite(b, k, acc);
                }
                acc
            }
            "ctpop" => {
                if let Some(k) = self.a.as_u(x) {
                    self.a.c(k.count_ones() as u128, w)
                } else {
                    let mut acc = self.a.c(0, w);
                    for i in 0..w {
                        let b = self.a.slice(x, i, 1);
                        let b = self.a.zext(b, w);
                        acc = self.a.add(acc, b);
                    }
                    acc
                }
            }
            "bswap" => {
                let parts: Vec<E> = (0..w / 8).rev().map(|i| self.a.slice(x, 8 * i, 8)).collect();
                self.a.concat(&parts)
            }
            "bitreverse" => {
                let parts: Vec<E> = (0..w).rev().map(|i| self.a.slice(x, i, 1)).collect();
                self.a.concat(&parts)
            }
            "abs" => {
                let z = self.a.zero(w);
                let neg = self.a.slt(x, z);
                let m = self.a.bop(Bop::Sub, z, x);
                self.a.ite(neg, m, x)
            }
            "ucmp" | "scmp" => {
                let rw = rt.bits();
                let (l, g) = if n == "ucmp" { (self.a.ult(x, y), self.a.ult(y, x)) } else { (self.a.slt(x, y), self.a.slt(y, x)) };
                let m1 = self.a.ones(rw);
                let one = self.a.c(1, rw);
                let z = self.a.c(0, rw);
                let r = self.a.ite(g, one, z);
                self.a.ite(l, m1, r)
            }
            _ => return self.unsup(format!("intrinsic {n}")),
        };
        Ok(Ok(self.norm(r)))
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// a readable fragment of a v0-mangled name
pub fn short(n: &str) -> String {
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if k > 1 && st + k <= b.len() && n.is_char_boundary(st) && n[st..st + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                out.push(n[st..st + k].to_string());
                i = st + k;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
