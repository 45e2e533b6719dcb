//! Byte-addressed memory: a table of objects, copy-on-write between states.
use crate::expr::{Exprs, E};
use crate::val::Val;
use std::rc::Rc;

pub const HEAP_BASE: u32 = 0x0100_0000;
pub const STACK_BASE: u32 = 0x2000_0000;
pub const FN_BASE: u32 = 0x3000_0000;

const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty, or one entry per byte: 0 = concrete, otherwise expression + 1
    pub sym: Vec<u32>,
    pub ro: bool,
}

type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    globals: Rc<Vec<Rc<Obj>>>,
    gover: Vec<Option<Rc<Obj>>>,
    heap: Vec<Rc<Chunk>>,
    nheap: usize,
    pub stack: Vec<Rc<Obj>>,
    pub heap_bytes: u64,
}

#[derive(Debug, Clone)]
pub enum MemErr {
    Null(u64),
    Bad(u64),
    Oob(u64, usize, usize),
    Freed(u64),
    ReadOnly(u64),
    BadFree(u64),
}

/// Zeroed memory of this size is never written completely.
fn counted(n: usize) -> u64 {
    if n < HUGE {
        n as u64
    } else {
        0
    }
}
pub const HUGE: usize = 0x7000_0000;

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![], ro: false }
    }
}

impl Mem {
    pub fn new(globals: Vec<Rc<Obj>>) -> Mem {
        let n = globals.len();
        Mem { globals: Rc::new(globals), gover: vec![None; n], heap: vec![], nheap: 0, stack: vec![], heap_bytes: 0 }
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.nheap;
        self.nheap += 1;
        if id / CH >= self.heap.len() {
            self.heap.push(Rc::new(Vec::with_capacity(CH)));
        }
        self.heap_bytes += counted(n);
        Rc::make_mut(&mut self.heap[id / CH]).push(Some(Rc::new(Obj::new(n))));
        (HEAP_BASE as u64 + id as u64) << 32
    }
    pub fn free(&mut self, a: u64) -> Result<(), MemErr> {
        let id = (a >> 32) as u32;
        if a as u32 != 0 || id < HEAP_BASE || id >= STACK_BASE {
            return Err(MemErr::BadFree(a));
        }
        let i = (id - HEAP_BASE) as usize;
        if i >= self.nheap {
            return Err(MemErr::BadFree(a));
        }
        let ch = Rc::make_mut(&mut self.heap[i / CH]);
        match ch[i % CH].take() {
            None => Err(MemErr::Freed(a)),
            Some(o) => {
                self.heap_bytes -= counted(o.data.len());
                if i % CH == CH - 1 && ch.iter().all(|x| x.is_none()) {
                    self.heap[i / CH] = Rc::new(vec![None; CH]);
                }
                Ok(())
            }
        }
    }
    pub fn push_stack(&mut self, n: usize) -> u64 {
        let id = self.stack.len() as u64;
        self.stack.push(Rc::new(Obj::new(n)));
        (STACK_BASE as u64 + id) << 32
    }
    pub fn obj(&self, a: u64) -> Result<&Rc<Obj>, MemErr> {
        let id = (a >> 32) as u32;
        if id >= FN_BASE {
            return Err(MemErr::Bad(a));
        }
        if id >= STACK_BASE {
            let i = (id - STACK_BASE) as usize;
            return self.stack.get(i).ok_or(MemErr::Freed(a));
        }
        if id >= HEAP_BASE {
            let i = (id - HEAP_BASE) as usize;
            if i >= self.nheap {
                return Err(MemErr::Bad(a));
            }
            return self.heap[i / CH][i % CH].as_ref().ok_or(MemErr::Freed(a));
        }
        if id == 0 {
            return Err(MemErr::Null(a));
        }
        let i = (id - 1) as usize;
        if i >= self.gover.len() {
            return Err(MemErr::Bad(a));
        }
        Ok(self.gover[i].as_ref().unwrap_or(&self.globals[i]))
    }
    fn obj_mut(&mut self, a: u64) -> Result<&mut Obj, MemErr> {
        let id = (a >> 32) as u32;
        if id >= FN_BASE {
            return Err(MemErr::Bad(a));
        }
        if id >= STACK_BASE {
            let i = (id - STACK_BASE) as usize;
            return match self.stack.get_mut(i) {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(MemErr::Freed(a)),
            };
        }
        if id >= HEAP_BASE {
            let i = (id - HEAP_BASE) as usize;
            if i >= self.nheap {
                return Err(MemErr::Bad(a));
            }
            let ch = Rc::make_mut(&mut self.heap[i / CH]);
            return match &mut ch[i % CH] {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(MemErr::Freed(a)),
            };
        }
        if id == 0 {
            return Err(MemErr::Null(a));
        }
        let i = (id - 1) as usize;
        if i >= self.gover.len() {
            return Err(MemErr::Bad(a));
        }
        if self.gover[i].is_none() {
            if self.globals[i].ro {
                return Err(MemErr::ReadOnly(a));
            }
            self.gover[i] = Some(self.globals[i].clone());
        }
        Ok(Rc::make_mut(self.gover[i].as_mut().unwrap()))
    }
    pub fn range(&self, a: u64, n: usize) -> Result<(&Rc<Obj>, usize), MemErr> {
        let o = self.obj(a)?;
        let off = a as u32 as usize;
        if off + n > o.data.len() {
            return Err(MemErr::Oob(a, n, o.data.len()));
        }
        Ok((o, off))
    }
    fn range_mut(&mut self, a: u64, n: usize) -> Result<(&mut Obj, usize), MemErr> {
        let o = self.obj_mut(a)?;
        let off = a as u32 as usize;
        if off + n > o.data.len() {
            return Err(MemErr::Oob(a, n, o.data.len()));
        }
        Ok((o, off))
    }

    pub fn load(&self, ex: &mut Exprs, a: u64, bits: u32) -> Result<Val, MemErr> {
        let n = ((bits + 7) / 8) as usize;
        let (o, off) = self.range(a, n)?;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Ok(Val::C(if bits < 64 { v & ((1u64 << bits) - 1) } else { v }));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::S(ex.konst(bits, u128::from_le_bytes(b))));
        }
        let mut acc: Option<E> = None;
        for i in (0..n).rev() {
            let b = Self::byte_e(ex, o, off + i);
            acc = Some(match acc {
                None => b,
                Some(h) => ex.concat(h, b),
            });
        }
        let mut e = acc.unwrap();
        if ex.w(e) > bits {
            e = ex.extract(e, 0, bits);
        }
        if bits <= 64 {
            if let Some(c) = ex.cval(e) {
                return Ok(Val::C(c as u64));
            }
        }
        Ok(Val::S(e))
    }
    fn byte_e(ex: &mut Exprs, o: &Obj, i: usize) -> E {
        if !o.sym.is_empty() && o.sym[i] != 0 {
            o.sym[i] - 1
        } else {
            ex.konst(8, o.data[i] as u128)
        }
    }
    pub fn byte(&self, a: u64) -> Result<Val, MemErr> {
        let (o, off) = self.range(a, 1)?;
        if !o.sym.is_empty() && o.sym[off] != 0 {
            Ok(Val::S(o.sym[off] - 1))
        } else {
            Ok(Val::C(o.data[off] as u64))
        }
    }
    pub fn bytes(&self, a: u64, n: usize) -> Result<Vec<Val>, MemErr> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.range(a, n)?;
        let mut v = Vec::with_capacity(n);
        for i in off..off + n {
            if !o.sym.is_empty() && o.sym[i] != 0 {
                v.push(Val::S(o.sym[i] - 1));
            } else {
                v.push(Val::C(o.data[i] as u64));
            }
        }
        Ok(v)
    }
    /// The bytes when all are concrete.
    pub fn concrete(&self, a: u64, n: usize) -> Result<Option<Vec<u8>>, MemErr> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        let (o, off) = self.range(a, n)?;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            Ok(Some(o.data[off..off + n].to_vec()))
        } else {
            Ok(None)
        }
    }
    pub fn store(&mut self, ex: &mut Exprs, a: u64, bits: u32, v: &Val) -> Result<(), MemErr> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(c) => {
                let (o, off) = self.range_mut(a, n)?;
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].fill(0);
                    o.data[off..off + 8].copy_from_slice(&c.to_le_bytes());
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
                Ok(())
            }
            Val::S(e) => {
                let mut e = *e;
                let (o, off) = self.range_mut(a, n)?;
                if let Some(c) = ex.cval(e) {
                    o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if !o.sym.is_empty() {
                        o.sym[off..off + n].fill(0);
                    }
                    return Ok(());
                }
                if ex.w(e) < n as u32 * 8 {
                    e = ex.zext(e, n as u32 * 8);
                }
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    let b = ex.extract(e, i as u32 * 8, 8);
                    match ex.cval(b) {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                        }
                        None => {
                            o.data[off + i] = 0;
                            o.sym[off + i] = b + 1;
                        }
                    }
                }
                Ok(())
            }
            Val::A(_) => unreachable!(),
        }
    }
    pub fn write(&mut self, a: u64, b: &[u8]) -> Result<(), MemErr> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.range_mut(a, b.len())?;
        o.data[off..off + b.len()].copy_from_slice(b);
        if !o.sym.is_empty() {
            o.sym[off..off + b.len()].fill(0);
        }
        Ok(())
    }
    pub fn set_byte(&mut self, ex: &Exprs, a: u64, v: &Val) -> Result<(), MemErr> {
        let (o, off) = self.range_mut(a, 1)?;
        match v {
            Val::C(c) => {
                o.data[off] = *c as u8;
                if !o.sym.is_empty() {
                    o.sym[off] = 0;
                }
            }
            Val::S(e) => {
                if let Some(c) = ex.cval(*e) {
                    o.data[off] = c as u8;
                    if !o.sym.is_empty() {
                        o.sym[off] = 0;
                    }
                } else {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.data[off] = 0;
                    o.sym[off] = *e + 1;
                }
            }
            Val::A(_) => unreachable!(),
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: usize) -> Result<(), MemErr> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (so, soff) = self.range(s, n)?;
        if so.sym.is_empty() || so.sym[soff..soff + n].iter().all(|x| *x == 0) {
            if n <= 64 {
                let mut buf = [0u8; 64];
                buf[..n].copy_from_slice(&so.data[soff..soff + n]);
                return self.write(d, &buf[..n]);
            }
            let so = so.clone();
            return self.write(d, &so.data[soff..soff + n]);
        }
        let so = so.clone();
        let (o, off) = self.range_mut(d, n)?;
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        if o.sym.is_empty() {
            o.sym = vec![0; o.data.len()];
        }
        o.sym[off..off + n].copy_from_slice(&so.sym[soff..soff + n]);
        Ok(())
    }
    pub fn fill(&mut self, d: u64, n: usize, v: u8) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.range_mut(d, n)?;
        o.data[off..off + n].fill(v);
        if !o.sym.is_empty() {
            o.sym[off..off + n].fill(0);
        }
        Ok(())
    }
    pub fn strlen(&self, a: u64) -> Result<usize, MemErr> {
        let (o, off) = self.range(a, 1)?;
        for i in off..o.data.len() {
            if o.data[i] == 0 && (o.sym.is_empty() || o.sym[i] == 0) {
                return Ok(i - off);
            }
        }
        Err(MemErr::Oob(a, o.data.len() - off + 1, o.data.len()))
    }
}
