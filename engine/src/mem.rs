//! Byte-addressed object memory with copy-on-write objects.
//!
//! An address is (object id << 32) | offset. Every byte is a packed cell: a concrete byte, "undefined",
//! or byte `k` of a term.

use crate::expr::*;
use std::rc::Rc;

pub type Cell = u64;
pub const UNDEF: Cell = 256;
pub const SYM: Cell = 1 << 63;

pub fn sym_cell(e: E, k: u32) -> Cell {
    debug_assert!(k < 65536);
    SYM | ((e as u64) << 16) | k as u64
}
pub fn cell_sym(c: Cell) -> Option<(E, u32)> {
    if c & SYM != 0 {
        Some((((c & !SYM) >> 16) as E, (c & 0xffff) as u32))
    } else {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Global,
    Const,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub kind: Kind,
    pub cells: Vec<Cell>,
}

const CH: usize = 32;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone, Default)]
pub struct Table {
    pub ch: Vec<Rc<Chunk>>,
}
impl Table {
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.ch.get(i / CH).and_then(|c| c.get(i % CH)).and_then(|o| o.as_ref())
    }
    pub fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> {
        while self.ch.len() <= i / CH {
            self.ch.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.ch[i / CH])[i % CH]
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        *self.slot(i) = o;
    }
    /// indices of chunks that are not shared between the two tables
    pub fn diff(&self, o: &Table) -> Vec<usize> {
        let n = self.ch.len().max(o.ch.len());
        let mut v = vec![];
        for c in 0..n {
            match (self.ch.get(c), o.ch.get(c)) {
                (Some(a), Some(b)) if Rc::ptr_eq(a, b) => {}
                (a, b) => {
                    for k in 0..CH {
                        let x = a.and_then(|x| x[k].as_ref());
                        let y = b.and_then(|x| x[k].as_ref());
                        match (x, y) {
                            (None, None) => {}
                            (Some(p), Some(q)) if Rc::ptr_eq(p, q) => {}
                            _ => v.push(c * CH + k),
                        }
                    }
                }
            }
        }
        v
    }
}

pub const HEAP_BASE: u64 = 1 << 16;
pub const GLOB_BASE: u64 = crate::ir::GLOBAL_BASE_ID;

#[derive(Clone)]
pub struct Mem {
    pub stack: Table,
    pub heap: Table,
    pub glob: Table,
    pub sp: u64,
    pub hp: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { stack: Default::default(), heap: Default::default(), glob: Default::default(), sp: 1, hp: 0 }
    }
    pub fn table(&self, id: u64) -> Option<(&Table, usize)> {
        if id == 0 {
            None
        } else if id < HEAP_BASE {
            Some((&self.stack, id as usize))
        } else if id < GLOB_BASE {
            Some((&self.heap, (id - HEAP_BASE) as usize))
        } else if id < (1 << 27) {
            Some((&self.glob, (id - GLOB_BASE) as usize))
        } else {
            None
        }
    }
    pub fn obj(&self, id: u64) -> Option<&Rc<Obj>> {
        let (t, i) = self.table(id)?;
        t.get(i)
    }
    pub fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        if id < HEAP_BASE {
            self.stack.slot(id as usize)
        } else if id < GLOB_BASE {
            self.heap.slot((id - HEAP_BASE) as usize)
        } else {
            self.glob.slot((id - GLOB_BASE) as usize)
        }
    }
    pub fn alloc_stack(&mut self, size: u64) -> u64 {
        let id = self.sp;
        self.sp += 1;
        assert!(self.sp < HEAP_BASE, "stack exhausted");
        *self.slot(id) = Some(Rc::new(Obj { kind: Kind::Stack, cells: vec![UNDEF; size as usize] }));
        id << 32
    }
    pub fn alloc_heap(&mut self, size: u64, zero: bool) -> u64 {
        let id = HEAP_BASE + self.hp;
        self.hp += 1;
        assert!(id < GLOB_BASE, "heap exhausted");
        let c = if zero { 0 } else { UNDEF };
        *self.slot(id) = Some(Rc::new(Obj { kind: Kind::Heap, cells: vec![c; size as usize] }));
        id << 32
    }
    pub fn pop_stack(&mut self, sp: u64) {
        for id in sp..self.sp {
            *self.slot(id) = None;
        }
        self.sp = sp;
    }
    pub fn read(&self, addr: u64, n: u64) -> Option<&[Cell]> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        let o = self.obj(id)?;
        o.cells.get(off as usize..(off + n) as usize)
    }
    pub fn write(&mut self, addr: u64, n: u64) -> Option<&mut [Cell]> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        self.table(id)?;
        let o = self.slot(id).as_mut()?;
        if o.kind == Kind::Const || o.cells.len() < (off + n) as usize {
            return None;
        }
        let o = Rc::make_mut(o);
        Some(&mut o.cells[off as usize..(off + n) as usize])
    }
    pub fn is_heap_ptr(&self, v: u64) -> bool {
        let id = v >> 32;
        id >= HEAP_BASE && id < GLOB_BASE && self.obj(id).is_some()
    }
}
