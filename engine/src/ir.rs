//! Parser for the textual LLVM IR emitted by rustc. Functions are parsed on first use.

use crate::expr::Bop;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Arc<Ty>),
    Struct(bool, Arc<Vec<Ty>>),
    Vec(u32, Arc<Ty>),
    Label,
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, ts) => ts.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vec(n, t) => (((*n as u64) * t.bits() as u64 + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    /// store size in bytes
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(_) | Ty::Vec(..) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (o, sz) = self.struct_layout();
                let _ = o;
                sz
            }
        }
    }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(packed, ts) = self {
            let mut off = 0;
            let mut v = vec![];
            for t in ts.iter() {
                if !packed {
                    let a = t.align();
                    off = (off + a - 1) / a * a;
                }
                v.push(off);
                off += t.size();
            }
            if !packed {
                let a = self.align();
                off = (off + a - 1) / a * a;
            }
            (v, off)
        } else {
            panic!()
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u32, u128),
    Wide(Arc<Vec<u8>>, u32), // little endian bytes, width
    Undef(Ty),
    Zero(Ty),
    Agg(Arc<Vec<Op>>),
    Nop, // metadata
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    PtrToInt,
    IntToPtr,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bop, Ty, u32, Op, Op),
    ICmp(Pred, Ty, u32, Op, Op),
    Cast(CastK, Ty, Ty, u32, Op),
    Gep(u32, Op, u64, Vec<(Op, u32, u64)>), // dst, base, const offset, (index, width, scale)
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u32, u64, Op),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Op)>, Option<u32>), // normal dest for invoke
    Select(u32, Ty, Op, Op, Op),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Ty, Op, Op, Vec<u32>),
    ExtractElement(u32, Ty, Op, Op),
    InsertElement(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<i32>),
    Freeze(u32, Op),
    Float(u32, String, Ty, Vec<(Ty, Op)>), // dst, operation, result type, operands
    AtomicRmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, HashMap<u32, Op>)>, // dst, type, pred block -> value
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub ipdom: Vec<Option<u32>>, // None = function exit
    pub live_in: Vec<Vec<u64>>,  // bitset per block (before phis; phi dsts are not live-in)
    pub reaches_exit: Vec<bool>,
}

pub struct FuncSrc {
    pub name: String,
    lines: (usize, usize), // header line, last line (exclusive, the "}" line)
    parsed: OnceLock<Result<Arc<Func>, String>>,
    pub addr: u64,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub addr: u64,
    pub constant: bool,
    init: Option<String>, // initialiser text
    pub external: bool,
}

pub struct Module {
    lines: Vec<String>,
    pub funcs: HashMap<String, FuncSrc>,
    pub fn_addr: HashMap<u64, String>,
    pub globals: Vec<Global>,
    pub gindex: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    types: HashMap<String, Ty>,
    pub decls: HashMap<String, u64>,
}

// ------------------------------------------------------------------ tokens
#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String), // word
    L(String), // %local
    G(String), // @global
    I(String), // integer literal (possibly negative)
    S(Vec<u8>),
    P(char),
    M, // metadata !...
    Q(String), // "string"
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let name = |i: &mut usize| -> String {
        if *i < b.len() && b[*i] == b'"' {
            *i += 1;
            let st = *i;
            while b[*i] != b'"' {
                *i += 1;
            }
            let r = s[st..*i].to_string();
            *i += 1;
            r
        } else {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b"._$-".contains(&b[*i])) {
                *i += 1;
            }
            s[st..*i].to_string()
        }
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' => {
                i += 1;
                out.push(T::L(name(&mut i)));
            }
            b'@' => {
                i += 1;
                out.push(T::G(name(&mut i)));
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._$-".contains(&b[i])) {
                    i += 1;
                }
                if st == i && i < b.len() && b[i] == b'{' {
                    // inline node !{...}
                    let mut d = 0;
                    while i < b.len() {
                        if b[i] == b'{' {
                            d += 1
                        }
                        if b[i] == b'}' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                }
                out.push(T::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            b'"' => {
                i += 1;
                let st = i;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::Q(s[st..i].to_string()));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 2;
                let mut v = vec![];
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\');
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).map_err(|e| e.to_string())?);
                            i += 3;
                        }
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(T::S(v));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') {
                    i += 1;
                }
                out.push(T::I(s[st..i].to_string()));
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._$-".contains(&b[i])) {
                    i += 1;
                }
                out.push(T::W(s[st..i].to_string()));
            }
            b'.' => {
                i += 1;
                out.push(T::P('.'));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    Ok(out)
}

struct P<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a Module,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{c}' at {:?}", &self.t[self.i.min(self.t.len())..self.t.len().min(self.i + 6)]))
        }
    }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn skip_balanced(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                T::P('(') | T::P('[') | T::P('{') => d += 1,
                T::P(')') | T::P(']') | T::P('}') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "label" | "metadata" | "token" | "x86_fp80"
                ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    /// skip attributes until a type starts
    fn skip_to_type(&mut self) -> R<()> {
        while !self.at_type() {
            match self.peek() {
                Some(T::P('(')) => self.skip_balanced()?,
                Some(_) => self.i += 1,
                None => return Err("no type".into()),
            }
        }
        Ok(())
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_balanced()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "x86_fp80" => Ty::Float(128),
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                _ => return Err(format!("type {w}")),
            },
            T::P('[') => {
                let n = self.int()?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let e = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n as u64, Arc::new(e))
            }
            T::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    v.push(self.ty()?);
                    self.eat_p(',');
                }
                self.i += 1;
                Ty::Struct(false, Arc::new(v))
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.is_p('}') {
                        v.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.i += 1;
                    self.exp_p('>')?;
                    Ty::Struct(true, Arc::new(v))
                } else {
                    let n = self.int()?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let e = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n as u32, Arc::new(e))
                }
            }
            T::L(n) => self.m.types.get(&n).cloned().ok_or(format!("type %{n}"))?,
            t => return Err(format!("type {t:?}")),
        };
        Ok(t)
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            T::I(s) => s.parse::<i128>().map_err(|e| format!("int {s}: {e}")),
            t => Err(format!("expected int, got {t:?}")),
        }
    }
}

fn wide_int(s: &str, w: u32) -> Vec<u8> {
    // decimal to little endian two's complement
    let neg = s.starts_with('-');
    let digits = s.trim_start_matches('-');
    let n = ((w + 7) / 8) as usize;
    let mut v = vec![0u8; n];
    for d in digits.bytes() {
        let mut c = (d - b'0') as u32;
        for x in v.iter_mut() {
            let t = *x as u32 * 10 + c;
            *x = t as u8;
            c = t >> 8;
        }
    }
    if neg {
        let mut c = 1u32;
        for x in v.iter_mut() {
            let t = (!*x) as u32 + c;
            *x = t as u8;
            c = t >> 8;
        }
    }
    v
}

struct FnCtx {
    regs: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, s: &str) -> u32 {
        if let Some(r) = self.regs.get(s) {
            return *r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(s.to_string(), r);
        r
    }
    fn block(&self, s: &str) -> R<u32> {
        self.blocks.get(s).copied().ok_or(format!("label {s}"))
    }
}

impl<'a> P<'a> {
    /// operand of a known type; attributes before it are skipped
    fn operand(&mut self, ty: &Ty, fx: &mut Option<&mut FnCtx>) -> R<Op> {
        loop {
            match self.peek() {
                Some(T::W(w)) => match w.as_str() {
                    "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "ptrtoaddr" | "splat" | "none" | "trunc" | "sub" | "add" | "xor" | "blockaddress" | "bitcast"
                    | "addrspacecast" | "dso_local_equivalent" | "no_cfi" => break,
                    "align" => {
                        self.i += 2;
                    }
                    _ => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_balanced()?;
                        }
                    }
                },
                _ => break,
            }
        }
        match self.next()? {
            T::L(n) => match fx {
                Some(f) => Ok(Op::Reg(f.reg(&n))),
                None => Err(format!("local %{n} in constant")),
            },
            T::G(n) => Ok(Op::C(64, self.m.sym_addr(&n)? as u128)),
            T::I(s) => match ty {
                Ty::Int(w) if *w <= 128 => {
                    let v: u128 = if s.starts_with('-') {
                        s.parse::<i128>().map_err(|e| e.to_string())? as u128
                    } else {
                        s.parse::<u128>().map_err(|e| e.to_string())?
                    };
                    Ok(Op::C(*w, crate::expr::mask128(v, *w)))
                }
                Ty::Int(w) => Ok(Op::Wide(Arc::new(wide_int(&s, *w)), *w)),
                Ty::Float(w) => {
                    let bits: u128 = if let Some(h) = s.strip_prefix("0x") {
                        let d = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        if *w == 32 {
                            (f64::from_bits(d) as f32).to_bits() as u128
                        } else {
                            d as u128
                        }
                    } else {
                        let f: f64 = s.parse().map_err(|_| format!("float {s}"))?;
                        if *w == 32 {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }
                    };
                    Ok(Op::C(*w, bits))
                }
                _ => Err(format!("int literal of type {ty:?}")),
            },
            T::S(v) => {
                let ops = v.iter().map(|b| Op::C(8, *b as u128)).collect();
                Ok(Op::Agg(Arc::new(ops)))
            }
            T::P('[') => self.agg(']', fx),
            T::P('{') => self.agg('}', fx),
            T::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let r = self.agg('}', fx)?;
                    self.exp_p('>')?;
                    Ok(r)
                } else {
                    self.agg('>', fx)
                }
            }
            T::M => Ok(Op::Nop),
            T::W(w) => match w.as_str() {
                "null" => Ok(Op::C(64, 0)),
                "true" => Ok(Op::C(1, 1)),
                "false" => Ok(Op::C(1, 0)),
                "undef" | "poison" => Ok(Op::Undef(ty.clone())),
                "none" => Ok(Op::Nop),
                "zeroinitializer" => Ok(Op::Zero(ty.clone())),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let o = self.operand(&t, fx)?;
                    self.exp_p(')')?;
                    if let Ty::Vec(n, _) = ty {
                        Ok(Op::Agg(Arc::new(vec![o; *n as usize])))
                    } else {
                        Err("splat".into())
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        // inrange(...) has parens of its own
                        if let Some(T::W(w)) = self.t.get(self.i - 1) {
                            if w == "inrange" && self.is_p('(') {
                                self.skip_balanced()?;
                            }
                        }
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    self.exp_p(',')?;
                    let (base, off, idx) = self.gep_rest(&t, fx)?;
                    self.exp_p(')')?;
                    if !idx.is_empty() {
                        return Err("non-constant gep constant".into());
                    }
                    match base {
                        Op::C(_, a) => Ok(Op::C(64, (a as u64).wrapping_add(off) as u128)),
                        _ => Err("gep constant base".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast" | "addrspacecast" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let o = self.operand(&t, fx)?;
                    if !self.eat_w("to") {
                        return Err("cast constant".into());
                    }
                    let t2 = self.ty()?;
                    self.exp_p(')')?;
                    match o {
                        Op::C(_, a) => Ok(Op::C(t2.bits(), crate::expr::mask128(a, t2.bits()))),
                        o => Ok(o),
                    }
                }
                "sub" | "add" | "xor" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.operand(&t, fx)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.operand(&t2, fx)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (Op::C(wd, x), Op::C(_, y)) => {
                            let o = match w.as_str() {
                                "sub" => Bop::Sub,
                                "add" => Bop::Add,
                                _ => Bop::Xor,
                            };
                            Ok(Op::C(wd, crate::expr::cbop(o, x, y, wd)))
                        }
                        _ => Err("constant expression".into()),
                    }
                }
                _ => Err(format!("operand {w}")),
            },
            t => Err(format!("operand {t:?}")),
        }
    }
    fn agg(&mut self, close: char, fx: &mut Option<&mut FnCtx>) -> R<Op> {
        let mut v = vec![];
        while !self.is_p(close) {
            let t = self.ty()?;
            v.push(self.operand(&t, fx)?);
            self.eat_p(',');
        }
        self.i += 1;
        Ok(Op::Agg(Arc::new(v)))
    }
    /// parses "ptr base, idx..." ; returns base, constant offset, dynamic terms
    fn gep_rest(&mut self, t: &Ty, fx: &mut Option<&mut FnCtx>) -> R<(Op, u64, Vec<(Op, u32, u64)>)> {
        let bt = self.ty()?;
        if !matches!(bt, Ty::Ptr) {
            return Err("gep base type".into());
        }
        let base = self.operand(&bt, fx)?;
        let mut cur = t.clone();
        let mut first = true;
        let mut off = 0u64;
        let mut dynv = vec![];
        while self.eat_p(',') {
            if matches!(self.peek(), Some(T::M)) {
                self.i += 1;
                continue;
            }
            self.skip_to_type()?;
            let it = self.ty()?;
            let o = self.operand(&it, fx)?;
            let (scale, next): (u64, Ty) = if first {
                first = false;
                (cur.size(), cur.clone())
            } else {
                match &cur {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), (**e).clone()),
                    Ty::Struct(_, ts) => {
                        let k = match &o {
                            Op::C(_, k) => *k as usize,
                            _ => return Err("struct gep".into()),
                        };
                        let (offs, _) = cur.struct_layout();
                        off = off.wrapping_add(offs[k]);
                        let n = ts[k].clone();
                        cur = n;
                        continue;
                    }
                    _ => return Err("gep into scalar".into()),
                }
            };
            match o {
                Op::C(w, k) => {
                    let s = crate::expr::sext128(k, w) as i64;
                    off = off.wrapping_add((s as u64).wrapping_mul(scale));
                }
                o => dynv.push((o, it.bits(), scale)),
            }
            cur = next;
        }
        Ok((base, off, dynv))
    }
}

pub const GLOBAL_BASE_ID: u64 = 1 << 20;
pub const FUNC_BASE: u64 = 1 << 60;

impl Module {
    pub fn sym_addr(&self, n: &str) -> R<u64> {
        if let Some(f) = self.funcs.get(n) {
            return Ok(f.addr);
        }
        if let Some(g) = self.gindex.get(n) {
            return Ok(self.globals[*g].addr);
        }
        if let Some(a) = self.decls.get(n) {
            return Ok(*a);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(a);
        }
        Err(format!("symbol @{n}"))
    }

    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines,
            funcs: HashMap::new(),
            fn_addr: HashMap::new(),
            globals: vec![],
            gindex: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            decls: HashMap::new(),
        };
        let n = m.lines.len();
        // types first
        for i in 0..n {
            let l = m.lines[i].clone();
            if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let name = l[1..p].trim_matches('"').to_string();
                    if l[p + 8..].starts_with("opaque") {
                        continue;
                    }
                    let t = {
                        let mut p = P { t: lex(&l[p + 8..])?, i: 0, m: &m };
                        p.ty()?
                    };
                    m.types.insert(name, t);
                }
            }
        }
        let mut faddr = FUNC_BASE;
        let mut gid = GLOBAL_BASE_ID;
        let mut i = 0;
        while i < n {
            let l = m.lines[i].clone();
            if l.starts_with("define ") || l.starts_with("declare ") {
                let toks = lex(&l)?;
                let name = toks.iter().find_map(|t| if let T::G(g) = t { Some(g.clone()) } else { None }).ok_or("define")?;
                faddr += 16;
                m.fn_addr.insert(faddr, name.clone());
                if l.starts_with("define ") {
                    let st = i;
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                    m.funcs.insert(name.clone(), FuncSrc { name, lines: (st, i), parsed: OnceLock::new(), addr: faddr });
                } else {
                    m.decls.insert(name, faddr);
                }
            } else if l.starts_with('@') {
                let toks = lex(&l)?;
                let name = match &toks[0] {
                    T::G(g) => g.clone(),
                    _ => return Err("global".into()),
                };
                // find 'global' / 'constant' / 'alias'
                let kw = toks.iter().position(|t| matches!(t, T::W(w) if w=="global"||w=="constant"||w=="alias"));
                let Some(kw) = kw else {
                    i += 1;
                    continue;
                };
                let kind = match &toks[kw] {
                    T::W(w) => w.clone(),
                    _ => unreachable!(),
                };
                if kind == "alias" {
                    if let Some(T::G(t)) = toks.iter().skip(1).find(|t| matches!(t, T::G(_))) {
                        m.aliases.insert(name, t.clone());
                    }
                    i += 1;
                    continue;
                }
                let external = toks[..kw].iter().any(|t| matches!(t, T::W(w) if w.starts_with("extern") ));
                let ty = {
                    let mut p = P { t: toks[kw + 1..].to_vec(), i: 0, m: &m };
                    p.ty()?
                };
                let pos = l.find(&format!(" {kind} ")).unwrap() + kind.len() + 2;
                let g = Global {
                    name: name.clone(),
                    ty,
                    addr: gid << 32,
                    constant: kind == "constant",
                    init: if external { None } else { Some(l[pos..].to_string()) },
                    external,
                };
                gid += 1;
                m.gindex.insert(name, m.globals.len());
                m.globals.push(g);
            }
            i += 1;
        }
        Ok(m)
    }

    /// initial bytes of a global: (concrete bytes, undef mask)
    pub fn global_init(&self, g: &Global) -> R<Vec<u8>> {
        let size = g.ty.size() as usize;
        let mut out = vec![0u8; size];
        if let Some(text) = &g.init {
            let mut p = P { t: lex(text)?, i: 0, m: self };
            let ty = p.ty()?;
            let op = p.operand(&ty, &mut None)?;
            fill(&ty, &op, &mut out, 0)?;
        }
        Ok(out)
    }

    pub fn func(&self, name: &str) -> R<Arc<Func>> {
        let f = self.funcs.get(name).ok_or(format!("no function {name}"))?;
        f.parsed.get_or_init(|| self.parse_fn(f).map(Arc::new)).clone()
    }

    fn parse_fn(&self, fs: &FuncSrc) -> R<Func> {
        let (a, b) = fs.lines;
        let mut fx = FnCtx { regs: HashMap::new(), n: 0, blocks: HashMap::new() };
        // header
        let mut p = P { t: lex(&self.lines[a])?, i: 1, m: self };
        p.skip_to_type()?;
        let ret = p.ty()?;
        while !matches!(p.peek(), Some(T::G(_))) {
            p.i += 1;
        }
        p.i += 1;
        p.exp_p('(')?;
        let mut params = vec![];
        let mut argno = 0;
        while !p.is_p(')') {
            if p.eat_p('.') {
                while p.eat_p('.') {}
                continue;
            }
            let t = p.ty()?;
            let mut nm = None;
            while !p.is_p(',') && !p.is_p(')') {
                match p.peek() {
                    Some(T::P('(')) => p.skip_balanced()?,
                    Some(T::L(n)) => {
                        nm = Some(n.clone());
                        p.i += 1
                    }
                    _ => p.i += 1,
                }
            }
            let nm = nm.unwrap_or_else(|| {
                let s = format!("{argno}");
                argno += 1;
                s
            });
            let r = fx.reg(&nm);
            params.push((r, t));
            p.eat_p(',');
        }
        // collect logical lines per block
        let mut blocks_src: Vec<(String, Vec<String>)> = vec![];
        let mut i = a + 1;
        while i < b {
            let l = &self.lines[i];
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') && !l.starts_with('\t') {
                // label
                let e = label_end(l).ok_or(format!("label line {l}"))?;
                let nm = l[..e].trim_matches('"').to_string();
                blocks_src.push((nm, vec![]));
                i += 1;
                continue;
            }
            if blocks_src.is_empty() {
                // unnamed entry block: its number is the count of unnamed params
                blocks_src.push((format!("{}", params.len()), vec![]));
            }
            let mut s = l.clone();
            if tl.starts_with("switch ") && !bracket_closed(&s) {
                while !bracket_closed(&s) {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i].trim());
                }
            }
            // landingpad clauses, invoke continuation
            if tl.contains(" invoke ") || tl.starts_with("invoke ") || tl.contains("= landingpad") {
                while i + 1 < b {
                    let nx = self.lines[i + 1].trim_start();
                    if self.lines[i + 1].starts_with("          ") && (nx.starts_with("to label") || nx.starts_with("cleanup") || nx.starts_with("catch") || nx.starts_with("filter")) {
                        i += 1;
                        s.push(' ');
                        s.push_str(nx);
                    } else {
                        break;
                    }
                }
            }
            blocks_src.last_mut().unwrap().1.push(s);
            i += 1;
        }
        for (k, (n, _)) in blocks_src.iter().enumerate() {
            fx.blocks.insert(n.clone(), k as u32);
        }
        let mut blocks = vec![];
        for (n, ls) in blocks_src.iter() {
            let mut blk = Block { name: n.clone(), phis: vec![], ins: vec![] };
            for l in ls {
                match self.parse_ins(l, &mut fx, &mut blk) {
                    Ok(()) => {}
                    Err(e) => blk.ins.push(Ins::Unsupported(format!("{e}: {}", l.trim()))),
                }
            }
            blocks.push(blk);
        }
        let mut f = Func {
            name: fs.name.clone(),
            params,
            ret,
            blocks,
            nregs: fx.n,
            ipdom: vec![],
            live_in: vec![],
            reaches_exit: vec![],
        };
        analyse(&mut f);
        Ok(f)
    }

    fn parse_ins(&self, l: &str, fx: &mut FnCtx, blk: &mut Block) -> R<()> {
        let toks = lex(l)?;
        let mut p = P { t: toks, i: 0, m: self };
        let mut dst = None;
        if let Some(T::L(n)) = p.peek().cloned() {
            p.i += 1;
            p.exp_p('=')?;
            dst = Some(fx.reg(&n));
        }
        let opc = match p.next()? {
            T::W(w) => w,
            t => return Err(format!("opcode {t:?}")),
        };
        let bop = match opc.as_str() {
            "add" => Some(Bop::Add),
            "sub" => Some(Bop::Sub),
            "mul" => Some(Bop::Mul),
            "udiv" => Some(Bop::UDiv),
            "urem" => Some(Bop::URem),
            "sdiv" => Some(Bop::SDiv),
            "srem" => Some(Bop::SRem),
            "shl" => Some(Bop::Shl),
            "lshr" => Some(Bop::LShr),
            "ashr" => Some(Bop::AShr),
            "and" => Some(Bop::And),
            "or" => Some(Bop::Or),
            "xor" => Some(Bop::Xor),
            _ => None,
        };
        if let Some(o) = bop {
            p.skip_to_type()?;
            let t = p.ty()?;
            let a = p.operand(&t, &mut Some(fx))?;
            p.exp_p(',')?;
            let b = p.operand(&t, &mut Some(fx))?;
            blk.ins.push(Ins::Bin(o, t, dst.unwrap(), a, b));
            return Ok(());
        }
        match opc.as_str() {
            "icmp" => {
                p.eat_w("samesign");
                let pr = match p.next()? {
                    T::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("icmp pred".into()),
                    },
                    _ => return Err("icmp".into()),
                };
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let b = p.operand(&t, &mut Some(fx))?;
                blk.ins.push(Ins::ICmp(pr, t, dst.unwrap(), a, b));
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                let mut name = opc.clone();
                if opc == "fcmp" {
                    while let Some(T::W(w)) = p.peek() {
                        let w = w.clone();
                        if matches!(w.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                            p.i += 1;
                            continue;
                        }
                        if matches!(w.as_str(), "float" | "double") {
                            break;
                        }
                        name = format!("fcmp {w}");
                        p.i += 1;
                    }
                } else {
                    p.skip_to_type()?;
                }
                let t = p.ty()?;
                let mut ops = vec![(t.clone(), p.operand(&t, &mut Some(fx))?)];
                if opc != "fneg" {
                    p.exp_p(',')?;
                    ops.push((t.clone(), p.operand(&t, &mut Some(fx))?));
                }
                let rt = if opc == "fcmp" { Ty::Int(1) } else { t };
                blk.ins.push(Ins::Float(dst.unwrap(), name, rt, ops));
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                p.skip_to_type()?;
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                if !p.eat_w("to") {
                    return Err("cast".into());
                }
                let t2 = p.ty()?;
                blk.ins.push(Ins::Float(dst.unwrap(), opc.clone(), t2, vec![(t, a)]));
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                p.skip_to_type()?;
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                if !p.eat_w("to") {
                    return Err("cast".into());
                }
                let t2 = p.ty()?;
                let k = match opc.as_str() {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    _ => CastK::Bitcast,
                };
                blk.ins.push(Ins::Cast(k, t, t2, dst.unwrap(), a));
            }
            "getelementptr" => {
                while let Some(T::W(w)) = p.peek() {
                    if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") {
                        p.i += 1;
                    } else if w == "inrange" {
                        p.i += 1;
                        p.skip_balanced()?;
                    } else {
                        break;
                    }
                }
                let t = p.ty()?;
                p.exp_p(',')?;
                let (base, off, idx) = p.gep_rest(&t, &mut Some(fx))?;
                blk.ins.push(Ins::Gep(dst.unwrap(), base, off, idx));
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = p.ty()?;
                p.exp_p(',')?;
                let pt = p.ty()?;
                let a = p.operand(&pt, &mut Some(fx))?;
                blk.ins.push(Ins::Load(dst.unwrap(), t, a));
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = p.ty()?;
                let v = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let pt = p.ty()?;
                let a = p.operand(&pt, &mut Some(fx))?;
                blk.ins.push(Ins::Store(t, v, a));
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty()?;
                let mut cnt = Op::C(64, 1);
                if p.eat_p(',') {
                    if p.at_type() {
                        let ct = p.ty()?;
                        cnt = p.operand(&ct, &mut Some(fx))?;
                    }
                }
                blk.ins.push(Ins::Alloca(dst.unwrap(), t.size(), cnt));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if opc != "call" && opc != "invoke" {
                    p.eat_w("call");
                }
                let inv = opc == "invoke";
                p.skip_to_type()?;
                let t = p.ty()?;
                // function type "ret (args...)" for varargs
                if p.is_p('(') {
                    p.skip_balanced()?;
                }
                let callee = match p.next()? {
                    T::G(n) => Callee::Direct(n),
                    T::L(n) => Callee::Indirect(Op::Reg(fx.reg(&n))),
                    T::W(w) if w == "asm" => {
                        blk.ins.push(Ins::Unsupported("inline asm".into()));
                        return Ok(());
                    }
                    T::W(w) if w == "inttoptr" || w == "null" || w == "undef" || w == "poison" => {
                        blk.ins.push(Ins::Unreachable);
                        return Ok(());
                    }
                    t => return Err(format!("callee {t:?}")),
                };
                p.exp_p('(')?;
                let mut args = vec![];
                while !p.is_p(')') {
                    let at = p.ty()?;
                    let o = if matches!(at, Ty::Meta) {
                        // skip metadata operand
                        while !p.is_p(',') && !p.is_p(')') {
                            if p.is_p('(') {
                                p.skip_balanced()?;
                            } else {
                                p.i += 1;
                            }
                        }
                        Op::Nop
                    } else {
                        p.operand(&at, &mut Some(fx))?
                    };
                    args.push((at, o));
                    p.eat_p(',');
                }
                p.i += 1;
                let mut normal = None;
                if inv {
                    while !p.is_w("to") {
                        if p.is_p('[') {
                            p.skip_balanced()?;
                        } else {
                            p.i += 1;
                        }
                    }
                    p.i += 1;
                    p.eat_w("label");
                    if let T::L(n) = p.next()? {
                        normal = Some(fx.block(&n)?);
                    }
                }
                blk.ins.push(Ins::Call(dst, t, callee, args, normal));
            }
            "select" => {
                p.skip_to_type()?;
                let ct = p.ty()?;
                let c = p.operand(&ct, &mut Some(fx))?;
                p.exp_p(',')?;
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let t2 = p.ty()?;
                let b = p.operand(&t2, &mut Some(fx))?;
                blk.ins.push(Ins::Select(dst.unwrap(), t, c, a, b));
            }
            "phi" => {
                p.skip_to_type()?;
                let t = p.ty()?;
                let mut m = HashMap::new();
                loop {
                    p.exp_p('[')?;
                    let v = p.operand(&t, &mut Some(fx))?;
                    p.exp_p(',')?;
                    if let T::L(n) = p.next()? {
                        m.insert(fx.block(&n)?, v);
                    }
                    p.exp_p(']')?;
                    if !p.eat_p(',') || !p.is_p('[') {
                        break;
                    }
                }
                blk.phis.push((dst.unwrap(), t, m));
            }
            "br" => {
                let t = p.ty()?;
                if t == Ty::Label {
                    if let T::L(n) = p.next()? {
                        blk.ins.push(Ins::Br(fx.block(&n)?));
                    }
                } else {
                    let c = p.operand(&t, &mut Some(fx))?;
                    let mut d = vec![];
                    for _ in 0..2 {
                        p.exp_p(',')?;
                        p.eat_w("label");
                        if let T::L(n) = p.next()? {
                            d.push(fx.block(&n)?);
                        }
                    }
                    blk.ins.push(Ins::CondBr(c, d[0], d[1]));
                }
            }
            "switch" => {
                let t = p.ty()?;
                let v = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                p.eat_w("label");
                let d = match p.next()? {
                    T::L(n) => fx.block(&n)?,
                    _ => return Err("switch".into()),
                };
                p.exp_p('[')?;
                let mut cs = vec![];
                while !p.is_p(']') {
                    let ct = p.ty()?;
                    let k = match p.operand(&ct, &mut Some(fx))? {
                        Op::C(_, k) => k,
                        _ => return Err("switch case".into()),
                    };
                    p.exp_p(',')?;
                    p.eat_w("label");
                    if let T::L(n) = p.next()? {
                        cs.push((k, fx.block(&n)?));
                    }
                }
                blk.ins.push(Ins::Switch(t.bits(), v, d, cs));
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    blk.ins.push(Ins::Ret(None));
                } else {
                    let v = p.operand(&t, &mut Some(fx))?;
                    blk.ins.push(Ins::Ret(Some((t, v))));
                }
            }
            "unreachable" => blk.ins.push(Ins::Unreachable),
            "extractvalue" => {
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                let mut ix = vec![];
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(T::I(_))) {
                        ix.push(p.int()? as u32);
                    } else {
                        break;
                    }
                }
                blk.ins.push(Ins::ExtractValue(dst.unwrap(), a, ix));
            }
            "insertvalue" => {
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let t2 = p.ty()?;
                let v = p.operand(&t2, &mut Some(fx))?;
                let mut ix = vec![];
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(T::I(_))) {
                        ix.push(p.int()? as u32);
                    } else {
                        break;
                    }
                }
                blk.ins.push(Ins::InsertValue(dst.unwrap(), t, a, v, ix));
            }
            "extractelement" => {
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let t2 = p.ty()?;
                let k = p.operand(&t2, &mut Some(fx))?;
                blk.ins.push(Ins::ExtractElement(dst.unwrap(), t, a, k));
            }
            "insertelement" => {
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let t2 = p.ty()?;
                let v = p.operand(&t2, &mut Some(fx))?;
                p.exp_p(',')?;
                let t3 = p.ty()?;
                let k = p.operand(&t3, &mut Some(fx))?;
                blk.ins.push(Ins::InsertElement(dst.unwrap(), t, a, v, k));
            }
            "shufflevector" => {
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let t2 = p.ty()?;
                let b = p.operand(&t2, &mut Some(fx))?;
                p.exp_p(',')?;
                let t3 = p.ty()?;
                let m = p.operand(&t3, &mut Some(fx))?;
                let n = if let Ty::Vec(n, _) = &t3 { *n } else { 0 };
                let mask = match m {
                    Op::Agg(v) => v
                        .iter()
                        .map(|o| match o {
                            Op::C(_, k) => *k as i32,
                            _ => -1,
                        })
                        .collect(),
                    Op::Zero(_) => vec![0; n as usize],
                    _ => vec![-1; n as usize],
                };
                blk.ins.push(Ins::Shuffle(dst.unwrap(), t, a, b, mask));
            }
            "freeze" => {
                let t = p.ty()?;
                let a = p.operand(&t, &mut Some(fx))?;
                blk.ins.push(Ins::Freeze(dst.unwrap(), a));
            }
            "fence" => blk.ins.push(Ins::Fence),
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next()? {
                    T::W(w) => w,
                    _ => return Err("atomicrmw".into()),
                };
                let pt = p.ty()?;
                let a = p.operand(&pt, &mut Some(fx))?;
                p.exp_p(',')?;
                let t = p.ty()?;
                let v = p.operand(&t, &mut Some(fx))?;
                blk.ins.push(Ins::AtomicRmw(dst.unwrap(), o, t, a, v));
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let pt = p.ty()?;
                let a = p.operand(&pt, &mut Some(fx))?;
                p.exp_p(',')?;
                let t = p.ty()?;
                let c = p.operand(&t, &mut Some(fx))?;
                p.exp_p(',')?;
                let t2 = p.ty()?;
                let n = p.operand(&t2, &mut Some(fx))?;
                blk.ins.push(Ins::CmpXchg(dst.unwrap(), t, a, c, n));
            }
            _ => blk.ins.push(Ins::Unsupported(l.trim().to_string())),
        }
        Ok(())
    }
}

fn label_end(l: &str) -> Option<usize> {
    if l.starts_with('"') {
        let e = l[1..].find('"')? + 2;
        return Some(e);
    }
    l.find(':')
}
fn bracket_closed(s: &str) -> bool {
    match s.find('[') {
        None => false,
        Some(_) => s.trim_end().ends_with(']') || s.contains(']'),
    }
}

pub fn fill(ty: &Ty, op: &Op, out: &mut [u8], off: usize) -> R<()> {
    match (ty, op) {
        (_, Op::Undef(_)) | (_, Op::Zero(_)) => {}
        (Ty::Arr(_, e), Op::Agg(v)) | (Ty::Vec(_, e), Op::Agg(v)) => {
            let s = e.size() as usize;
            for (i, o) in v.iter().enumerate() {
                fill(e, o, out, off + i * s)?;
            }
        }
        (Ty::Struct(_, ts), Op::Agg(v)) => {
            let (offs, _) = ty.struct_layout();
            for (i, o) in v.iter().enumerate() {
                fill(&ts[i], o, out, off + offs[i] as usize)?;
            }
        }
        (_, Op::C(w, k)) => {
            let n = ((*w + 7) / 8) as usize;
            for i in 0..n {
                out[off + i] = (k >> (8 * i)) as u8;
            }
        }
        (_, Op::Wide(b, _)) => {
            for (i, x) in b.iter().enumerate() {
                out[off + i] = *x;
            }
        }
        _ => return Err(format!("initialiser {op:?}")),
    }
    Ok(())
}

// ------------------------------------------------------------------ analyses
pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(Ins::Br(d)) => vec![*d],
        Some(Ins::CondBr(_, a, c)) => vec![*a, *c],
        Some(Ins::Switch(_, _, d, cs)) => {
            let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect();
            v.push(*d);
            v.sort_unstable();
            v.dedup();
            v
        }
        Some(Ins::Call(_, _, _, _, Some(d))) => vec![*d],
        _ => vec![],
    }
}

fn op_regs(o: &Op, f: &mut dyn FnMut(u32)) {
    match o {
        Op::Reg(r) => f(*r),
        Op::Agg(v) => v.iter().for_each(|x| op_regs(x, f)),
        _ => {}
    }
}
pub fn ins_uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    match i {
        Ins::Bin(_, _, _, a, b) | Ins::ICmp(_, _, _, a, b) => {
            op_regs(a, f);
            op_regs(b, f)
        }
        Ins::Cast(_, _, _, _, a) | Ins::Load(_, _, a) | Ins::Freeze(_, a) | Ins::ExtractValue(_, a, _) => op_regs(a, f),
        Ins::Gep(_, a, _, ix) => {
            op_regs(a, f);
            ix.iter().for_each(|x| op_regs(&x.0, f))
        }
        Ins::Store(_, a, b) => {
            op_regs(a, f);
            op_regs(b, f)
        }
        Ins::Alloca(_, _, a) => op_regs(a, f),
        Ins::Call(_, _, c, args, _) => {
            if let Callee::Indirect(o) = c {
                op_regs(o, f)
            }
            args.iter().for_each(|x| op_regs(&x.1, f))
        }
        Ins::Select(_, _, a, b, c) => {
            op_regs(a, f);
            op_regs(b, f);
            op_regs(c, f)
        }
        Ins::InsertValue(_, _, a, b, _) | Ins::ExtractElement(_, _, a, b) | Ins::Shuffle(_, _, a, b, _) => {
            op_regs(a, f);
            op_regs(b, f)
        }
        Ins::InsertElement(_, _, a, b, c) | Ins::CmpXchg(_, _, a, b, c) => {
            op_regs(a, f);
            op_regs(b, f);
            op_regs(c, f)
        }
        Ins::AtomicRmw(_, _, _, a, b) => {
            op_regs(a, f);
            op_regs(b, f)
        }
        Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => op_regs(a, f),
        Ins::Ret(Some((_, a))) => op_regs(a, f),
        Ins::Float(_, _, _, a) => a.iter().for_each(|x| op_regs(&x.1, f)),
        _ => {}
    }
}
pub fn ins_def(i: &Ins) -> Option<u32> {
    match i {
        Ins::Bin(_, _, d, ..)
        | Ins::ICmp(_, _, d, ..)
        | Ins::Cast(_, _, _, d, _)
        | Ins::Gep(d, ..)
        | Ins::Load(d, ..)
        | Ins::Alloca(d, ..)
        | Ins::Select(d, ..)
        | Ins::ExtractValue(d, ..)
        | Ins::InsertValue(d, ..)
        | Ins::ExtractElement(d, ..)
        | Ins::InsertElement(d, ..)
        | Ins::Shuffle(d, ..)
        | Ins::Freeze(d, ..)
        | Ins::Float(d, ..)
        | Ins::AtomicRmw(d, ..)
        | Ins::CmpXchg(d, ..) => Some(*d),
        Ins::Call(d, ..) => *d,
        _ => None,
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut pred: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in succ.iter().enumerate() {
        for x in s {
            pred[*x as usize].push(i as u32);
        }
    }
    // blocks from which a return is reachable
    let mut reach = vec![false; n];
    let mut work: Vec<usize> = (0..n).filter(|i| matches!(f.blocks[*i].ins.last(), Some(Ins::Ret(_)))).collect();
    for w in &work {
        reach[*w] = true;
    }
    while let Some(b) = work.pop() {
        for p in &pred[b] {
            if !reach[*p as usize] {
                reach[*p as usize] = true;
                work.push(*p as usize);
            }
        }
    }
    // post-dominators with virtual exit n, over reaching blocks: iterative (Cooper-Harvey-Kennedy)
    let exit = n;
    let mut order = vec![]; // postorder on reverse graph from exit
    let mut seen = vec![false; n + 1];
    {
        // DFS on reverse graph
        let mut st: Vec<(usize, usize)> = vec![(exit, 0)];
        seen[exit] = true;
        let rets: Vec<u32> = (0..n).filter(|i| matches!(f.blocks[*i].ins.last(), Some(Ins::Ret(_)))).map(|x| x as u32).collect();
        while let Some((b, k)) = st.pop() {
            let ps: &Vec<u32> = if b == exit { &rets } else { &pred[b] };
            if k < ps.len() {
                st.push((b, k + 1));
                let p = ps[k] as usize;
                if !seen[p] {
                    seen[p] = true;
                    st.push((p, 0));
                }
            } else {
                order.push(b);
            }
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().rev() {
            if b == exit {
                continue;
            }
            let mut ss: Vec<usize> = succ[b].iter().map(|x| *x as usize).filter(|x| reach[*x]).collect();
            if matches!(f.blocks[b].ins.last(), Some(Ins::Ret(_))) {
                ss.push(exit);
            }
            let mut new = usize::MAX;
            for s in ss {
                if idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut x, mut y) = (new, s);
                    while x != y {
                        while num[x] < num[y] {
                            x = idom[x];
                        }
                        while num[y] < num[x] {
                            y = idom[y];
                        }
                    }
                    new = x;
                }
            }
            if new != usize::MAX && idom[b] != new {
                idom[b] = new;
                changed = true;
            }
        }
    }
    f.ipdom = (0..n).map(|b| if idom[b] == usize::MAX || idom[b] == exit { None } else { Some(idom[b] as u32) }).collect();
    f.reaches_exit = reach;
    // liveness
    let words = (f.nregs as usize + 63) / 64;
    let mut live_in = vec![vec![0u64; words]; n];
    let mut usev = vec![vec![0u64; words]; n];
    let mut defv = vec![vec![0u64; words]; n];
    for (i, b) in f.blocks.iter().enumerate() {
        let mut defs = vec![0u64; words];
        for ph in &b.phis {
            defs[(ph.0 / 64) as usize] |= 1 << (ph.0 % 64);
        }
        let u = &mut usev[i];
        for ins in &b.ins {
            ins_uses(ins, &mut |r| {
                if defs[(r / 64) as usize] >> (r % 64) & 1 == 0 {
                    u[(r / 64) as usize] |= 1 << (r % 64);
                }
            });
            if let Some(d) = ins_def(ins) {
                defs[(d / 64) as usize] |= 1 << (d % 64);
            }
        }
        defv[i] = defs;
    }
    let mut changed = true;
    while changed {
        changed = false;
        for i in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &succ[i] {
                let s = s as usize;
                for w in 0..words {
                    out[w] |= live_in[s][w];
                }
                for ph in &f.blocks[s].phis {
                    if let Some(o) = ph.2.get(&(i as u32)) {
                        op_regs(o, &mut |r| out[(r / 64) as usize] |= 1 << (r % 64));
                    }
                }
            }
            let mut changed_i = false;
            for w in 0..words {
                let v = usev[i][w] | (out[w] & !defv[i][w]);
                if v != live_in[i][w] {
                    live_in[i][w] = v;
                    changed_i = true;
                }
            }
            changed |= changed_i;
        }
    }
    // registers live right after the phis of a block were evaluated: live_in plus phi dsts
    for (i, b) in f.blocks.iter().enumerate() {
        for ph in &b.phis {
            live_in[i][(ph.0 / 64) as usize] |= 1 << (ph.0 % 64);
        }
    }
    f.live_in = live_in;
}
