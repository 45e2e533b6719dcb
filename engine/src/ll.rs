//! Parser for the textual LLVM IR written by llvm-dis / opt -S.
use crate::ir::*;
use crate::val::Val;
use std::collections::HashMap;
use std::rc::Rc;

pub const FUNC_BASE: u64 = 0x3000_0000;

pub fn global_addr(i: u32) -> u64 {
    ((i as u64) + 1) << 32
}
pub fn func_addr(i: u32) -> u64 {
    (FUNC_BASE + i as u64) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta(String),
    Attr,
    Ellipsis,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        let mut out = vec![];
        let s = self.s;
        self.i += 1;
        while s[self.i] != b'"' {
            if s[self.i] == b'\\' {
                if s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn next(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    self.word()
                };
                if c == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Global(n)
                }
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'!' => {
                self.i += 1;
                let w = self.word();
                Tok::Meta(w)
            }
            b'#' => {
                self.i += 1;
                self.word();
                Tok::Attr
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Ellipsis
            }
            _ if is_word(c) => Tok::Word(self.word()),
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
}

pub struct Parser<'a> {
    toks: Vec<Tok>,
    i: usize,
    pub m: &'a mut Module,
    pub ex: &'a mut crate::expr::Exprs,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

fn logical_lines(text: &str, st: usize, en: usize) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = vec![];
    let b = text.as_bytes();
    let mut i = st;
    while i < en {
        let mut j = i;
        while j < en && b[j] != b'\n' {
            j += 1;
        }
        let line = &text[i..j];
        let t = line.trim_start();
        if !t.is_empty() && !t.starts_with(';') {
            let ind = line.len() - t.len();
            let cont = ind >= 4 || t.starts_with(']');
            if cont && !out.is_empty() {
                out.last_mut().unwrap().1 = j;
            } else {
                out.push((i, j));
            }
        }
        i = j + 1;
    }
    out
}

impl<'a> Parser<'a> {
    pub fn new(m: &'a mut Module, ex: &'a mut crate::expr::Exprs) -> Self {
        Parser { toks: vec![], i: 0, m, ex, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn lex(&mut self, s: &str) {
        self.toks.clear();
        self.i = 0;
        let mut l = Lex { s: s.as_bytes(), i: 0 };
        loop {
            let t = l.next();
            if t == Tok::Eof {
                break;
            }
            self.toks.push(t);
        }
        self.toks.push(Tok::Eof);
    }
    fn peek(&self) -> &Tok {
        &self.toks[self.i]
    }
    fn peek2(&self) -> &Tok {
        &self.toks[(self.i + 1).min(self.toks.len() - 1)]
    }
    fn bump(&mut self) -> Tok {
        let t = self.toks[self.i].clone();
        if self.i < self.toks.len() - 1 {
            self.i += 1;
        }
        t
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == c)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn expectp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {:?} at token {} of {:?}", c, self.i, &self.toks[..self.toks.len().min(60)]);
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.bump() {
            Tok::Word(w) => w,
            t => panic!("expected word, got {:?} in {:?}", t, &self.toks[..self.toks.len().min(60)]),
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.bump() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }

    fn try_type(&mut self) -> Option<TyId> {
        let base = match self.peek().clone() {
            Tok::Word(w) => {
                let t = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" | "x86_fp80" | "fp128" | "half" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                            Ty::Int(w[1..].parse().unwrap())
                        } else {
                            return None;
                        }
                    }
                };
                self.bump();
                if t == Ty::Ptr && self.isw("addrspace") {
                    self.bump();
                    self.skip_parens();
                }
                self.m.types.intern(t)
            }
            Tok::P('[') => {
                self.bump();
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eatw("x"));
                let e = self.ty();
                self.expectp(']');
                self.m.types.intern(Ty::Arr(n, e))
            }
            Tok::P('<') => {
                self.bump();
                if self.isp('{') {
                    self.bump();
                    let mut es = vec![];
                    while !self.isp('}') {
                        es.push(self.ty());
                        self.eatp(',');
                    }
                    self.bump();
                    self.expectp('>');
                    self.m.types.intern(Ty::Struct(es, true))
                } else {
                    let n: u32 = self.word().parse().unwrap();
                    assert!(self.eatw("x"));
                    let e = self.ty();
                    self.expectp('>');
                    self.m.types.intern(Ty::Vec(n, e))
                }
            }
            Tok::P('{') => {
                self.bump();
                let mut es = vec![];
                while !self.isp('}') {
                    es.push(self.ty());
                    self.eatp(',');
                }
                self.bump();
                self.m.types.intern(Ty::Struct(es, false))
            }
            Tok::Local(n) => {
                if let Some(&t) = self.m.types.named.get(&n) {
                    self.bump();
                    t
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        Some(base)
    }
    fn ty(&mut self) -> TyId {
        match self.try_type() {
            Some(t) => t,
            None => panic!("expected type at {} in {:?}", self.i, &self.toks[..self.toks.len().min(80)]),
        }
    }

    fn is_operand_start(&self) -> bool {
        match self.peek() {
            Tok::Local(_) | Tok::Global(_) | Tok::CStr(_) | Tok::Meta(_) => true,
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Word(w) => {
                matches!(
                    w.as_str(),
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "sub" | "add" | "xor" | "trunc"
                        | "asm" | "blockaddress" | "dso_local_equivalent" | "no_cfi"
                ) || w.as_bytes()[0].is_ascii_digit()
                    || (w.as_bytes()[0] == b'-' && w.len() > 1)
            }
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.is_operand_start() {
                return;
            }
            match self.peek() {
                Tok::Word(w) => {
                    if w == "align" {
                        self.bump();
                        if self.isp('(') {
                            self.skip_parens();
                        } else {
                            self.bump();
                        }
                    } else {
                        self.bump();
                        if self.isp('(') {
                            self.skip_parens();
                        }
                    }
                }
                Tok::Str(_) => {
                    self.bump();
                    if self.eatp('=') {
                        self.bump();
                    }
                }
                Tok::Attr => {
                    self.bump();
                }
                _ => return,
            }
        }
    }

    fn parse_const(&mut self, ty: TyId) -> Const {
        match self.bump() {
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1, 1),
                "false" => Const::Int(1, 0),
                "null" | "none" => Const::Ptr(0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.expectp('(');
                    let t = self.ty();
                    let c = self.parse_const(t);
                    self.expectp(')');
                    Const::Splat(Box::new((t, c)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    while let Tok::Word(_) = self.peek() {
                        self.bump();
                    }
                    self.expectp('(');
                    let t = self.ty();
                    let c = self.parse_const(t);
                    assert!(self.eatw("to"));
                    self.ty();
                    self.expectp(')');
                    match c {
                        Const::Int(_, v) => Const::Ptr(v as u64),
                        c => c,
                    }
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.bump();
                        if let Tok::P('(') = self.peek() {
                            // inrange(...) carries its own parentheses
                            if matches!(&self.toks[self.i - 1], Tok::Word(w) if w == "inrange") {
                                self.skip_parens();
                            }
                        }
                    }
                    self.expectp('(');
                    let ety = self.ty();
                    self.expectp(',');
                    let bt = self.ty();
                    let b = self.parse_const(bt);
                    let mut off: i64 = 0;
                    let mut cur = ety;
                    let mut first = true;
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        let c = self.parse_const(it);
                        let iv = match c {
                            Const::Int(w, v) => sext_i64(v, w),
                            Const::Zero | Const::Ptr(0) => 0,
                            c => panic!("gep const index {:?}", c),
                        };
                        if first {
                            off += iv * self.m.types.size(cur) as i64;
                            first = false;
                        } else {
                            let (o, n) = self.step(cur, iv);
                            off += o;
                            cur = n;
                        }
                    }
                    self.expectp(')');
                    match b {
                        Const::Global(g, o) => Const::Global(g, o + off),
                        Const::Ptr(p) => Const::Ptr(p.wrapping_add(off as u64)),
                        b => panic!("gep base {:?}", b),
                    }
                }
                "sub" | "add" | "xor" => {
                    while let Tok::Word(_) = self.peek() {
                        self.bump();
                    }
                    self.expectp('(');
                    let mut d = 1;
                    while d > 0 {
                        match self.bump() {
                            Tok::P('(') => d += 1,
                            Tok::P(')') => d -= 1,
                            _ => {}
                        }
                    }
                    Const::Expr(w)
                }
                _ => {
                    let b = w.as_bytes();
                    if b[0].is_ascii_digit() || b[0] == b'-' {
                        match self.m.types.get(ty).clone() {
                            Ty::Int(bits) => Const::Int(bits, parse_int(&w, bits)),
                            Ty::F64 => Const::Int(64, parse_float(&w).to_bits() as u128),
                            Ty::F32 => Const::Int(32, (parse_float(&w) as f32).to_bits() as u128),
                            t => panic!("number {} for type {:?}", w, t),
                        }
                    } else {
                        panic!("const word {} in {:?}", w, &self.toks[..self.toks.len().min(60)])
                    }
                }
            },
            Tok::Global(g) => Const::Global(g, 0),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::P('{') => {
                let mut v = vec![];
                while !self.isp('}') {
                    let t = self.ty();
                    let c = self.parse_const(t);
                    v.push((t, c));
                    self.eatp(',');
                }
                self.bump();
                Const::Agg(v)
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.isp(']') {
                    let t = self.ty();
                    let c = self.parse_const(t);
                    v.push((t, c));
                    self.eatp(',');
                }
                self.bump();
                Const::Agg(v)
            }
            Tok::P('<') => {
                let mut v = vec![];
                if self.eatp('{') {
                    while !self.isp('}') {
                        let t = self.ty();
                        let c = self.parse_const(t);
                        v.push((t, c));
                        self.eatp(',');
                    }
                    self.bump();
                    self.expectp('>');
                } else {
                    while !self.isp('>') {
                        let t = self.ty();
                        let c = self.parse_const(t);
                        v.push((t, c));
                        self.eatp(',');
                    }
                    self.bump();
                }
                Const::Agg(v)
            }
            t => panic!("const {:?} in {:?}", t, &self.toks[..self.toks.len().min(60)]),
        }
    }

    fn step(&self, cur: TyId, iv: i64) -> (i64, TyId) {
        match self.m.types.get(cur) {
            Ty::Struct(es, _) => {
                let (offs, _) = self.m.types.layout(cur);
                (offs[iv as usize] as i64, es[iv as usize])
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (iv * self.m.types.size(*e) as i64, *e),
            t => panic!("gep step into {:?}", t),
        }
    }

    pub fn sym_addr(&self, g: &str) -> Option<u64> {
        let mut g = g.to_string();
        while let Some(a) = self.m.aliases.get(&g) {
            g = a.clone();
        }
        if let Some(&i) = self.m.gidx.get(&g) {
            return Some(global_addr(i));
        }
        self.m.fidx.get(&g).map(|&i| func_addr(i))
    }

    pub fn const_val(&mut self, ty: TyId, c: &Const) -> Val {
        match c {
            Const::Int(w, v) => {
                if *w <= 64 {
                    Val::C(*v as u64)
                } else {
                    Val::S(self.ex.konst(*w, *v))
                }
            }
            Const::Ptr(p) => Val::C(*p),
            Const::Global(g, o) => match self.sym_addr(g) {
                Some(a) => Val::C(a.wrapping_add(*o as u64)),
                None => panic!("unknown symbol {}", g),
            },
            Const::Undef | Const::Zero => self.zero(ty),
            Const::Agg(v) => {
                let mut out = vec![];
                for (t, c) in v {
                    out.push(self.const_val(*t, c));
                }
                Val::A(Rc::new(out))
            }
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Const::Splat(b) => {
                let n = match self.m.types.get(ty) {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 1,
                };
                let v = self.const_val(b.0, &b.1);
                Val::A(Rc::new(vec![v; n]))
            }
            Const::Expr(_) => Val::C(0),
        }
    }
    fn zero(&mut self, ty: TyId) -> Val {
        match self.m.types.get(ty).clone() {
            Ty::Int(w) if w > 64 => Val::S(self.ex.konst(w, 0)),
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(es, _) => {
                let v = es.iter().map(|e| self.zero(*e)).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::C(0),
        }
    }

    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn operand(&mut self, ty: TyId) -> Opnd {
        if let Tok::Local(n) = self.peek().clone() {
            self.bump();
            return Opnd::Reg(self.reg(&n));
        }
        let c = self.parse_const(ty);
        Opnd::K(self.const_val(ty, &c))
    }
    fn ty_operand(&mut self) -> (TyId, Opnd) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.operand(t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        assert!(self.eatw("label"), "label expected {:?}", &self.toks[..self.toks.len().min(40)]);
        match self.bump() {
            Tok::Local(n) => match self.blocks.get(&n) {
                Some(b) => *b,
                None => panic!("unknown block {}", n),
            },
            t => panic!("label {:?}", t),
        }
    }
    fn width_lanes(&self, t: TyId) -> (u32, u32) {
        match self.m.types.get(t) {
            Ty::Vec(n, e) => (self.m.types.bits(*e) as u32, *n),
            Ty::Int(w) => (*w, 0),
            Ty::Ptr | Ty::F64 => (64, 0),
            Ty::F32 => (32, 0),
            _ => (0, 0),
        }
    }
    fn shape(&self, t: TyId) -> Shape {
        match self.m.types.get(t) {
            Ty::Int(w) => Shape::S(*w),
            Ty::Ptr | Ty::F64 => Shape::S(64),
            Ty::F32 => Shape::S(32),
            _ => Shape::T(t),
        }
    }

    /// Parse the lazily recorded body of function `fi`.
    pub fn parse_body(&mut self, fi: u32) {
        let (lines, argnames) = {
            let f = &mut self.m.funcs[fi as usize];
            f.parsed = true;
            (std::mem::take(&mut f.body), f.argnames.clone())
        };
        let text = std::mem::take(&mut self.m.text);
        self.regs.clear();
        self.blocks.clear();
        let (st, en) = lines[0];
        let ll = logical_lines(&text, st, en);
        let mut argregs = vec![];
        for a in &argnames {
            let r = self.reg(a);
            argregs.push(r);
        }
        // first pass: block labels
        let nameless = argnames.iter().filter(|a| a.bytes().all(|c| c.is_ascii_digit())).count();
        let mut blocks: Vec<Block> = vec![];
        let mut cur_lines: Vec<Vec<(usize, usize)>> = vec![];
        for &(a, b) in &ll {
            let line = &text[a..b];
            if !line.starts_with(' ') {
                let end = line.find(':').unwrap_or_else(|| panic!("label line {:?}", line));
                let mut name = line[..end].to_string();
                if name.starts_with('"') {
                    let mut l = Lex { s: line.as_bytes(), i: 0 };
                    name = String::from_utf8_lossy(&l.quoted()).into_owned();
                }
                self.blocks.insert(name.clone(), blocks.len() as u32);
                blocks.push(Block { name, ..Default::default() });
                cur_lines.push(vec![]);
            } else {
                if blocks.is_empty() {
                    let name = nameless.to_string();
                    self.blocks.insert(name.clone(), 0);
                    blocks.push(Block { name, ..Default::default() });
                    cur_lines.push(vec![]);
                }
                cur_lines.last_mut().unwrap().push((a, b));
            }
        }
        for bi in 0..blocks.len() {
            for &(a, b) in &cur_lines[bi] {
                let line = &text[a..b];
                self.lex(line);
                self.inst(&mut blocks[bi], line);
            }
        }
        self.m.text = text;
        let nregs = self.regs.len() as u32;
        let f = &mut self.m.funcs[fi as usize];
        f.blocks = blocks;
        f.nregs = nregs;
        f.argregs = argregs;
    }

    fn inst(&mut self, blk: &mut Block, line: &str) {
        let mut d: Option<u32> = None;
        if let (Tok::Local(n), Tok::P('=')) = (self.peek().clone(), self.peek2().clone()) {
            self.bump();
            self.bump();
            d = Some(self.reg(&n));
        }
        let mut op = self.word();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = self.word();
        }
        let dd = d.unwrap_or(0);
        let out = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" => {
                while let Tok::Word(w) = self.peek() {
                    if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") {
                        self.bump();
                    } else {
                        break;
                    }
                }
                let t = self.ty();
                let a = self.operand(t);
                self.expectp(',');
                let b = self.operand(t);
                let (w, lanes) = self.width_lanes(t);
                let op = match op.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "sdiv" => Bop::SDiv,
                    "urem" => Bop::URem,
                    "srem" => Bop::SRem,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    _ => Bop::AShr,
                };
                Inst::Bin { d: dd, op, w, lanes, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_fmf();
                let t = self.ty();
                let a = self.operand(t);
                self.expectp(',');
                let b = self.operand(t);
                let (w, _) = self.width_lanes(t);
                Inst::FBin { d: dd, op, w, a, b }
            }
            "fneg" => {
                self.skip_fmf();
                let t = self.ty();
                let a = self.operand(t);
                let (w, _) = self.width_lanes(t);
                Inst::Bin { d: dd, op: Bop::Xor, w, lanes: 0, a, b: Opnd::K(Val::C(1u64 << (w - 1))) }
            }
            "fcmp" => {
                self.skip_fmf();
                let p = self.word();
                let t = self.ty();
                let a = self.operand(t);
                self.expectp(',');
                let b = self.operand(t);
                let (w, _) = self.width_lanes(t);
                Inst::FCmp { d: dd, pred: p, w, a, b }
            }
            "icmp" => {
                self.eatw("samesign");
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                };
                let t = self.ty();
                let a = self.operand(t);
                self.expectp(',');
                let b = self.operand(t);
                let (w, lanes) = self.width_lanes(t);
                Inst::ICmp { d: dd, p, w, lanes, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while let Tok::Word(w) = self.peek() {
                    if matches!(w.as_str(), "nuw" | "nsw" | "nneg") {
                        self.bump();
                    } else {
                        break;
                    }
                }
                let (ft, a) = self.ty_operand();
                assert!(self.eatw("to"));
                let tt = self.ty();
                let (fw, lanes) = self.width_lanes(ft);
                let (tw, lanes2) = self.width_lanes(tt);
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => {
                        if fw == tw && lanes == lanes2 {
                            Cast::Same
                        } else {
                            Cast::Bitcast
                        }
                    }
                    _ => {
                        if fw == tw {
                            Cast::Same
                        } else if fw > tw {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                Inst::Cast { d: dd, k, fw, tw, lanes, a, fty: ft, tty: tt }
            }
            "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                self.skip_fmf();
                let (ft, a) = self.ty_operand();
                assert!(self.eatw("to"));
                let tt = self.ty();
                let (fw, _) = self.width_lanes(ft);
                let (tw, _) = self.width_lanes(tt);
                Inst::FCast { d: dd, op, fw, tw, a }
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty();
                let mut n = Opnd::K(Val::C(1));
                if self.isp(',') && matches!(self.peek2(), Tok::Word(w) if w != "align" && w != "addrspace") {
                    self.bump();
                    n = self.ty_operand().1;
                }
                Inst::Alloca { d: dd, size: self.m.types.size(t), n }
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let t = self.ty();
                self.expectp(',');
                let (_, p) = self.ty_operand();
                Inst::Load { d: dd, sh: self.shape(t), p }
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let (t, v) = self.ty_operand();
                self.expectp(',');
                let (_, p) = self.ty_operand();
                Inst::Store { sh: self.shape(t), v, p }
            }
            "getelementptr" => {
                while let Tok::Word(w) = self.peek() {
                    if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") {
                        self.bump();
                    } else if w == "inrange" {
                        self.bump();
                        self.skip_parens();
                    } else {
                        break;
                    }
                }
                let ety = self.ty();
                self.expectp(',');
                let (bt, base) = self.ty_operand();
                let mut bad = matches!(self.m.types.get(bt), Ty::Vec(..));
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = ety;
                let mut first = true;
                while self.eatp(',') {
                    if let Tok::Meta(_) = self.peek() {
                        break;
                    }
                    let it = self.ty();
                    let w = match self.m.types.get(it) {
                        Ty::Int(w) => *w,
                        _ => {
                            bad = true;
                            64
                        }
                    };
                    let o = self.operand(it);
                    if bad {
                        continue;
                    }
                    if first {
                        first = false;
                        let sc = self.m.types.size(cur) as i64;
                        match &o {
                            Opnd::K(Val::C(v)) => off = off.wrapping_add(sext_i64(*v as u128, w).wrapping_mul(sc)),
                            _ => idx.push((o, w, sc)),
                        }
                    } else {
                        match &o {
                            Opnd::K(Val::C(v)) => {
                                let (o2, n) = self.step(cur, sext_i64(*v as u128, w));
                                off = off.wrapping_add(o2);
                                cur = n;
                            }
                            _ => match self.m.types.get(cur).clone() {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    idx.push((o, w, self.m.types.size(e) as i64));
                                    cur = e;
                                }
                                t => panic!("gep var index into {:?}", t),
                            },
                        }
                    }
                }
                if bad {
                    Inst::Unsupported(line.trim().to_string())
                } else {
                    Inst::Gep { d: dd, base, off, idx }
                }
            }
            "call" | "invoke" => {
                self.skip_call_prefix();
                let rty = self.ty();
                if self.isp('(') {
                    // explicit function type
                    self.skip_parens();
                }
                let mut name = String::new();
                let callee = match self.bump() {
                    Tok::Global(g) => {
                        name = g.clone();
                        let mut g2 = g.clone();
                        while let Some(a) = self.m.aliases.get(&g2) {
                            g2 = a.clone();
                        }
                        match self.m.fidx.get(&g2) {
                            Some(&i) => Callee::Func(i),
                            None => Callee::Bad,
                        }
                    }
                    Tok::Local(n) => Callee::Reg(self.reg(&n)),
                    Tok::Word(w) if w == "asm" => {
                        while let Tok::Word(_) = self.peek() {
                            self.bump();
                        }
                        let s = match self.bump() {
                            Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                            _ => String::new(),
                        };
                        self.expectp(',');
                        self.bump();
                        Callee::Asm(s)
                    }
                    Tok::Word(_) => {
                        // constant expression callee (inttoptr ...): only in dead code
                        self.skip_parens();
                        Callee::Bad
                    }
                    t => panic!("callee {:?} in {}", t, line),
                };
                self.expectp('(');
                let mut args = vec![];
                while !self.isp(')') {
                    let t = self.ty();
                    if matches!(self.m.types.get(t), Ty::Other) {
                        // metadata argument
                        while !self.isp(',') && !self.isp(')') {
                            if self.isp('(') {
                                self.skip_parens();
                            } else {
                                self.bump();
                            }
                        }
                    } else {
                        self.skip_attrs();
                        let o = self.operand(t);
                        args.push((t, o));
                    }
                    self.eatp(',');
                }
                self.bump();
                let is_nop = name.starts_with("llvm.lifetime.")
                    || name.starts_with("llvm.experimental.noalias")
                    || name.starts_with("llvm.dbg.")
                    || name == "llvm.assume"
                    || name == "llvm.donothing"
                    || name == "llvm.prefetch.p0"
                    || name == "llvm.x86.sse2.pause";
                if op == "invoke" {
                    blk.insts.push(Inst::Call { d, rty, callee, args, name });
                    while !self.isw("to") {
                        self.bump();
                    }
                    self.bump();
                    let t = self.label();
                    Inst::Br { t }
                } else if is_nop {
                    return;
                } else {
                    Inst::Call { d, rty, callee, args, name }
                }
            }
            "select" => {
                self.skip_fmf();
                let (ct, c) = self.ty_operand();
                self.expectp(',');
                let (t, a) = self.ty_operand();
                self.expectp(',');
                let (_, b) = self.ty_operand();
                let vec_cond = matches!(self.m.types.get(ct), Ty::Vec(..));
                Inst::Select { d: dd, c, a, b, ty: t, vec_cond }
            }
            "phi" => {
                self.skip_fmf();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.expectp('[');
                    let o = self.operand(t);
                    self.expectp(',');
                    let b = match self.bump() {
                        Tok::Local(n) => self.blocks[&n],
                        x => panic!("phi {:?}", x),
                    };
                    self.expectp(']');
                    inc.push((b, o));
                    if !(self.isp(',') && matches!(self.peek2(), Tok::P('['))) {
                        break;
                    }
                    self.bump();
                }
                blk.phis.push((dd, inc));
                return;
            }
            "extractvalue" => {
                let (t, a) = self.ty_operand();
                let mut path = vec![];
                while self.eatp(',') {
                    match self.bump() {
                        Tok::Word(w) => path.push(w.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Extract { d: dd, a, path, ty: t }
            }
            "insertvalue" => {
                let (t, a) = self.ty_operand();
                self.expectp(',');
                let (_, v) = self.ty_operand();
                let mut path = vec![];
                while self.eatp(',') {
                    match self.bump() {
                        Tok::Word(w) => path.push(w.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Insert { d: dd, a, v, path, ty: t }
            }
            "extractelement" => {
                let (t, a) = self.ty_operand();
                self.expectp(',');
                let (_, i) = self.ty_operand();
                let (_, n) = self.width_lanes(t);
                Inst::ExtElem { d: dd, a, i, n, ty: t }
            }
            "insertelement" => {
                let (t, a) = self.ty_operand();
                self.expectp(',');
                let (_, v) = self.ty_operand();
                self.expectp(',');
                let (_, i) = self.ty_operand();
                let (_, n) = self.width_lanes(t);
                Inst::InsElem { d: dd, a, v, i, n }
            }
            "shufflevector" => {
                let (t, a) = self.ty_operand();
                self.expectp(',');
                let (_, b) = self.ty_operand();
                self.expectp(',');
                let mt = self.ty();
                let mc = self.parse_const(mt);
                let (_, n) = self.width_lanes(t);
                let (_, mn) = self.width_lanes(mt);
                let mask = match mc {
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(_, v) => *v as i32,
                            _ => -1,
                        })
                        .collect(),
                    Const::Splat(b) => match b.1 {
                        Const::Int(_, v) => vec![v as i32; mn as usize],
                        _ => vec![-1; mn as usize],
                    },
                    Const::Zero => vec![0; mn as usize],
                    _ => vec![-1; mn as usize],
                };
                Inst::Shuffle { d: dd, a, b, n, mask }
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.word().as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    _ => RmwOp::Nand,
                };
                let (_, p) = self.ty_operand();
                self.expectp(',');
                let (t, v) = self.ty_operand();
                let (w, _) = self.width_lanes(t);
                Inst::Rmw { d: dd, op: o, w, p, v }
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_, p) = self.ty_operand();
                self.expectp(',');
                let (t, c) = self.ty_operand();
                self.expectp(',');
                let (_, n) = self.ty_operand();
                let (w, _) = self.width_lanes(t);
                Inst::CmpXchg { d: dd, w, p, c, n }
            }
            "fence" => return,
            "freeze" => {
                let (_, a) = self.ty_operand();
                Inst::Freeze { d: dd, a }
            }
            "ret" => {
                if self.isw("void") {
                    Inst::Ret { v: None }
                } else {
                    let (_, v) = self.ty_operand();
                    Inst::Ret { v: Some(v) }
                }
            }
            "br" => {
                if self.isw("label") {
                    let t = self.label();
                    Inst::Br { t }
                } else {
                    let (_, c) = self.ty_operand();
                    self.expectp(',');
                    let t = self.label();
                    self.expectp(',');
                    let f = self.label();
                    Inst::CBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.ty_operand();
                self.expectp(',');
                let def = self.label();
                self.expectp('[');
                let (w, _) = self.width_lanes(t);
                let mut cases = vec![];
                while !self.isp(']') {
                    let ct = self.ty();
                    let c = match self.parse_const(ct) {
                        Const::Int(_, v) => v,
                        Const::Zero => 0,
                        c => panic!("switch case {:?}", c),
                    };
                    self.expectp(',');
                    let l = self.label();
                    cases.push((c, l));
                }
                Inst::Switch { v, w, def, cases }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => Inst::Unreachable,
            _ => Inst::Unsupported(line.trim().to_string()),
        };
        blk.insts.push(out);
    }

    fn skip_fmf(&mut self) {
        while let Tok::Word(w) = self.peek() {
            if matches!(
                w.as_str(),
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nuw" | "nsw" | "nneg"
            ) {
                self.bump();
            } else {
                break;
            }
        }
    }

    fn skip_call_prefix(&mut self) {
        // calling convention, return attributes, fast-math flags, up to the type
        loop {
            let save = self.i;
            if self.try_type().is_some() {
                self.i = save;
                return;
            }
            match self.peek() {
                Tok::Word(w) if w == "align" => {
                    self.bump();
                    self.bump();
                }
                Tok::Word(w) if w == "cc" => {
                    self.bump();
                    self.bump();
                }
                Tok::Word(_) => {
                    self.bump();
                    if self.isp('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) | Tok::Attr => {
                    self.bump();
                }
                t => panic!("call prefix {:?} in {:?}", t, &self.toks[..self.toks.len().min(40)]),
            }
        }
    }

    /// Parse the whole module: globals and function headers; bodies are lazy.
    pub fn parse_module(&mut self, text: String) {
        // collect top-level entities
        let mut heads: Vec<(usize, usize)> = vec![]; // top-level lines
        let mut bodies: Vec<(usize, (usize, usize))> = vec![];
        {
            let b = text.as_bytes();
            let mut i = 0;
            let n = b.len();
            while i < n {
                let mut j = i;
                while j < n && b[j] != b'\n' {
                    j += 1;
                }
                let line = &text[i..j];
                if line.starts_with("define ") {
                    let k = j + 1;
                    let end = text[k..].find("\n}").map(|x| k + x + 1).unwrap_or(n);
                    heads.push((i, j));
                    bodies.push((heads.len() - 1, (k, end)));
                    i = end + 2;
                    continue;
                }
                if line.starts_with('@') || line.starts_with("declare ") || line.starts_with('%') {
                    heads.push((i, j));
                }
                i = j + 1;
            }
        }
        // pass 1: named types and symbols
        for &(a, b) in &heads {
            let line = &text[a..b];
            if line.starts_with('%') {
                self.lex(line);
                if let Tok::Local(n) = self.bump() {
                    self.expectp('=');
                    self.eatw("type");
                    let t = if self.isw("opaque") { self.m.types.intern(Ty::Other) } else { self.ty() };
                    self.m.types.named.insert(n, t);
                }
            }
        }
        let voidt = self.m.types.intern(Ty::Void);
        let mut gl: Vec<(usize, u32)> = vec![];
        let bodymap: HashMap<usize, (usize, usize)> = bodies.into_iter().collect();
        for (hi, &(a, b)) in heads.iter().enumerate() {
            let line = &text[a..b];
            if line.starts_with('@') {
                let mut l = Lex { s: line.as_bytes(), i: 0 };
                let name = match l.next() {
                    Tok::Global(n) => n,
                    _ => continue,
                };
                let rest = &line[l.i..];
                if rest.contains(" alias ") {
                    if let Some(p) = rest.rfind('@') {
                        let mut l2 = Lex { s: rest[p..].as_bytes(), i: 0 };
                        if let Tok::Global(t) = l2.next() {
                            self.m.aliases.insert(name, t);
                        }
                    }
                    continue;
                }
                let gi = self.m.globals.len() as u32;
                self.m.globals.push(Global { name: name.clone(), ty: voidt, init: None, constant: false, align: 1 });
                self.m.gidx.insert(name, gi);
                gl.push((hi, gi));
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                self.lex(line);
                self.bump();
                // linkage etc. up to the return type
                self.skip_call_prefix();
                let rty = self.ty();
                let name = match self.bump() {
                    Tok::Global(n) => n,
                    t => panic!("function name {:?} in {}", t, line),
                };
                let mut f = Func { name: name.clone(), rty, ..Default::default() };
                f.defined = line.starts_with("define ");
                self.expectp('(');
                let mut k = 0;
                while !self.isp(')') {
                    if let Tok::Ellipsis = self.peek() {
                        self.bump();
                        continue;
                    }
                    let t = self.ty();
                    f.argtys.push(t);
                    if f.defined {
                        self.skip_attrs();
                        if let Tok::Local(n) = self.peek().clone() {
                            self.bump();
                            f.argnames.push(n);
                        } else {
                            f.argnames.push(k.to_string());
                        }
                    } else {
                        // declaration: skip attributes up to , or )
                        while !self.isp(',') && !self.isp(')') {
                            if self.isp('(') {
                                self.skip_parens();
                            } else {
                                self.bump();
                            }
                        }
                    }
                    k += 1;
                    self.eatp(',');
                }
                f.nargs = f.argtys.len() as u32;
                if let Some(&b) = bodymap.get(&hi) {
                    f.body = vec![b];
                }
                let fi = self.m.funcs.len() as u32;
                self.m.fidx.insert(name, fi);
                self.m.funcs.push(f);
            }
        }
        // pass 2: global initialisers
        for (hi, gi) in gl {
            let (a, b) = heads[hi];
            let line = &text[a..b];
            self.lex(line);
            self.bump();
            self.expectp('=');
            let mut external = false;
            let constant;
            loop {
                match self.bump() {
                    Tok::Word(w) => match w.as_str() {
                        "external" | "extern_weak" => external = true,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => {
                            constant = false;
                            break;
                        }
                        _ => {
                            if self.isp('(') {
                                self.skip_parens();
                            }
                        }
                    },
                    Tok::Eof => panic!("global {}", line),
                    _ => {}
                }
            }
            let ty = self.ty();
            let init = if external { None } else { Some(self.parse_const(ty)) };
            let g = &mut self.m.globals[gi as usize];
            g.ty = ty;
            g.init = init;
            g.constant = constant;
        }
        self.m.text = text;
    }

    /// Lay out a constant as bytes; pointers become concrete addresses.
    pub fn const_bytes(&mut self, ty: TyId, c: &Const, out: &mut [u8]) {
        match c {
            Const::Undef | Const::Zero => {}
            Const::Int(_, v) => {
                let n = self.m.types.store_size(ty) as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Const::Ptr(p) => out[..8].copy_from_slice(&p.to_le_bytes()),
            Const::Global(g, o) => {
                let a = self.sym_addr(g).unwrap_or(0).wrapping_add(*o as u64);
                out[..8].copy_from_slice(&a.to_le_bytes());
            }
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Agg(v) => match self.m.types.get(ty).clone() {
                Ty::Struct(..) => {
                    let (offs, _) = self.m.types.layout(ty);
                    for (i, (t, c)) in v.iter().enumerate() {
                        self.const_bytes(*t, c, &mut out[offs[i] as usize..]);
                    }
                }
                _ => {
                    let mut o = 0;
                    for (t, c) in v {
                        self.const_bytes(*t, c, &mut out[o..]);
                        o += self.m.types.size(*t) as usize;
                    }
                }
            },
            Const::Splat(b) => {
                let n = match self.m.types.get(ty) {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 1,
                };
                let s = self.m.types.size(b.0) as usize;
                for i in 0..n {
                    self.const_bytes(b.0, &b.1, &mut out[i * s..]);
                }
            }
            Const::Expr(e) => panic!("constant expression {} in initialiser", e),
        }
    }
}

fn parse_int(w: &str, bits: u32) -> u128 {
    let v: i128 = if let Some(u) = w.strip_prefix("u0x") {
        return u128::from_str_radix(u, 16).unwrap();
    } else {
        w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().map(|x| x as i128).unwrap_or(0))
    };
    let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    (v as u128) & m
}

fn parse_float(w: &str) -> f64 {
    if let Some(h) = w.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
    } else {
        w.parse().unwrap_or(0.0)
    }
}

pub fn sext_i64(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v as u64) << s) as i64 >> s
    }
}
