//! In-memory form of the LLVM IR module.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(es, packed) => {
                if *packed {
                    1
                } else {
                    es.iter().map(|e| self.align(*e)).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, e) => {
                let s = self.bits(*e) * *n as u64 / 8;
                s.next_power_of_two().max(1)
            }
            _ => 1,
        }
    }
    pub fn bits(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => *w as u64,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, e) => self.bits(*e) * *n as u64,
            _ => self.size(t) * 8,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align(t);
                (s + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(..) => self.layout(t).1,
            Ty::Vec(n, e) => {
                let s = (self.bits(*e) * *n as u64 + 7) / 8;
                let a = self.align(t);
                (s + a - 1) / a * a
            }
        }
    }
    /// Bytes actually written by a store of this type.
    pub fn store_size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, e) => (self.bits(*e) * *n as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    /// Field offsets and total size of a struct.
    pub fn layout(&self, t: TyId) -> (Vec<u64>, u64) {
        if let Ty::Struct(es, packed) = self.get(t) {
            let mut off = 0u64;
            let mut offs = Vec::with_capacity(es.len());
            let mut maxa = 1;
            for e in es {
                let a = if *packed { 1 } else { self.align(*e) };
                maxa = maxa.max(a);
                off = (off + a - 1) / a * a;
                offs.push(off);
                off += self.size(*e);
            }
            off = (off + maxa - 1) / maxa * maxa;
            (offs, off)
        } else {
            panic!("layout of non-struct")
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    Ptr(u64),
    Undef,
    Zero,
    Global(String, i64),
    Agg(Vec<(TyId, Const)>),
    Bytes(Vec<u8>),
    Splat(Box<(TyId, Const)>),
    Expr(String),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(crate::val::Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    Bitcast,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    Nand,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Reg(u32),
    Asm(String),
    Bad,
}

/// How a value of a type is moved to and from memory.
#[derive(Clone, Copy, Debug)]
pub enum Shape {
    /// integer or pointer of that many bits
    S(u32),
    /// general type
    T(TyId),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { d: u32, op: Bop, w: u32, lanes: u32, a: Opnd, b: Opnd },
    FBin { d: u32, op: String, w: u32, a: Opnd, b: Opnd },
    FCmp { d: u32, pred: String, w: u32, a: Opnd, b: Opnd },
    FCast { d: u32, op: String, fw: u32, tw: u32, a: Opnd },
    ICmp { d: u32, p: Pred, w: u32, lanes: u32, a: Opnd, b: Opnd },
    Cast { d: u32, k: Cast, fw: u32, tw: u32, lanes: u32, a: Opnd, fty: TyId, tty: TyId },
    Alloca { d: u32, size: u64, n: Opnd },
    Load { d: u32, sh: Shape, p: Opnd },
    Store { sh: Shape, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Call { d: Option<u32>, rty: TyId, callee: Callee, args: Vec<(TyId, Opnd)>, name: String },
    Select { d: u32, c: Opnd, a: Opnd, b: Opnd, ty: TyId, vec_cond: bool },
    Extract { d: u32, a: Opnd, path: Vec<u32>, ty: TyId },
    Insert { d: u32, a: Opnd, v: Opnd, path: Vec<u32>, ty: TyId },
    ExtElem { d: u32, a: Opnd, i: Opnd, n: u32, ty: TyId },
    InsElem { d: u32, a: Opnd, v: Opnd, i: Opnd, n: u32 },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: u32, mask: Vec<i32> },
    Rmw { d: u32, op: RmwOp, w: u32, p: Opnd, v: Opnd },
    CmpXchg { d: u32, w: u32, p: Opnd, c: Opnd, n: Opnd },
    Freeze { d: u32, a: Opnd },
    Nop,
    Ret { v: Option<Opnd> },
    Br { t: u32 },
    CBr { c: Opnd, t: u32, f: u32 },
    Switch { v: Opnd, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    /// phi nodes: destination and incoming (pred block, operand)
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
}

#[derive(Default)]
pub struct Func {
    pub name: String,
    pub defined: bool,
    pub nregs: u32,
    pub nargs: u32,
    pub rty: TyId,
    pub blocks: Vec<Block>,
    /// lines of the body, parsed on first use
    pub body: Vec<(usize, usize)>,
    pub argtys: Vec<TyId>,
    pub argregs: Vec<u32>,
    pub argnames: Vec<String>,
    pub parsed: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Default)]
pub struct Module {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub text: String,
}
