//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::Bop;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(Bop, E, E),
    Cmp(Cmp, E, E),
    Ite(E, E, E),
    Extract(E, u32),
    Concat(E, E),
    ZExt(E),
    SExt(E),
    /// table lookup: (table id, 8-bit index)
    Table(u32, E),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub sup: u32,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    /// true when the variable stands for the output of an idealised primitive
    pub uf: bool,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u32), E>,
    pub vars: Vec<VarInfo>,
    pub sups: Vec<Rc<Vec<u32>>>,
    supmap: HashMap<Rc<Vec<u32>>, u32>,
    supu: HashMap<(u32, u32), u32>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tabmap: HashMap<Rc<Vec<u64>>, u32>,
    stamp: Vec<u32>,
    cache: Vec<u128>,
    gen: u32,
    inputs: HashMap<String, E>,
    pub tt: HashMap<E, Option<Rc<Vec<u128>>>>,
    /// an upper bound of every node's (unsigned) value
    pub ubs: Vec<u128>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold_bin(op: Bop, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Bop::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Bop::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bop::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
    };
    r & m
}

pub fn fold_cmp(c: Cmp, w: u32, a: u128, b: u128) -> bool {
    match c {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sx(a, w) < sx(b, w),
        Cmp::Sle => sx(a, w) <= sx(b, w),
    }
}

impl Exprs {
    pub fn new() -> Self {
        let empty = Rc::new(vec![]);
        let mut supmap = HashMap::new();
        supmap.insert(empty.clone(), 0);
        Exprs {
            nodes: vec![],
            map: HashMap::new(),
            vars: vec![],
            sups: vec![empty],
            supmap,
            supu: HashMap::new(),
            tables: vec![],
            tabmap: HashMap::new(),
            stamp: vec![],
            cache: vec![],
            gen: 0,
            tt: HashMap::new(),
            inputs: HashMap::new(),
            ubs: vec![],
        }
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn k(&self, e: E) -> K {
        self.nodes[e as usize].k
    }
    pub fn sup(&self, e: E) -> &Rc<Vec<u32>> {
        &self.sups[self.nodes[e as usize].sup as usize]
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].k {
            K::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn intern_sup(&mut self, v: Vec<u32>) -> u32 {
        let r = Rc::new(v);
        if let Some(&i) = self.supmap.get(&r) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(r.clone());
        self.supmap.insert(r, i);
        i
    }
    fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.supu.get(&key) {
            return r;
        }
        let (x, y) = (self.sups[a as usize].clone(), self.sups[b as usize].clone());
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                out.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                out.push(y[j]);
                j += 1;
            } else {
                out.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.intern_sup(out);
        self.supu.insert(key, r);
        r
    }
    fn raw(&mut self, k: K, w: u32) -> E {
        if let Some(&e) = self.map.get(&(k, w)) {
            return e;
        }
        let s = |x: &Self, e: E| x.nodes[e as usize].sup;
        let sup = match k {
            K::Const(_) => 0,
            K::Var(v) => self.intern_sup(vec![v]),
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => {
                let (x, y) = (s(self, a), s(self, b));
                self.sup_union(x, y)
            }
            K::Ite(c, a, b) => {
                let (x, y, z) = (s(self, c), s(self, a), s(self, b));
                let t = self.sup_union(x, y);
                self.sup_union(t, z)
            }
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) | K::Table(_, a) => s(self, a),
        };
        if let Some(e) = self.tab_fold(&k, w, sup) {
            self.map.insert((k, w), e);
            return e;
        }
        let ub = self.bound(&k, w);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { k, w, sup });
        self.ubs.push(ub);
        self.map.insert((k, w), e);
        e
    }
    pub fn ub(&self, e: E) -> u128 {
        self.ubs[e as usize]
    }
    fn bound(&self, k: &K, w: u32) -> u128 {
        let m = mask(w);
        let u = |e: E| self.ubs[e as usize];
        let r = match *k {
            K::Const(v) => v,
            K::Var(_) => m,
            K::Bin(op, a, b) => match op {
                Bop::And => u(a).min(u(b)),
                Bop::Or | Bop::Xor => {
                    let t = u(a).max(u(b));
                    if t == 0 {
                        0
                    } else {
                        mask(128 - t.leading_zeros())
                    }
                }
                Bop::Add => u(a).checked_add(u(b)).filter(|x| *x <= m).unwrap_or(m),
                Bop::Mul => u(a).checked_mul(u(b)).filter(|x| *x <= m).unwrap_or(m),
                Bop::UDiv => match self.cval(b) {
                    Some(c) if c > 0 => u(a) / c,
                    _ => m,
                },
                Bop::URem => match self.cval(b) {
                    Some(c) if c > 0 => u(a).min(c - 1),
                    _ => m,
                },
                Bop::LShr => u(a),
                _ => m,
            },
            K::Cmp(..) => 1,
            K::Ite(_, a, b) => u(a).max(u(b)),
            K::Extract(a, lo) => u(a) >> lo,
            K::Concat(h, l) => {
                let lw = self.w(l);
                if w > 127 || lw > 120 {
                    m
                } else {
                    (u(h) << lw) + u(l)
                }
            }
            K::ZExt(a) => u(a),
            K::SExt(a) => {
                let aw = self.w(a);
                if u(a) < 1 << (aw - 1) {
                    u(a)
                } else {
                    m
                }
            }
            K::Table(t, i) => {
                let n = (u(i) as usize).min(255);
                self.tables[t as usize][..=n].iter().copied().max().unwrap_or(0) as u128
            }
        };
        r.min(m)
    }

    /// index expression and entries, for an expression built over one lookup
    pub fn small(&self, e: E) -> Option<(E, Rc<Vec<u64>>)> {
        match self.k(e) {
            K::Table(t, i) => Some((i, self.tables[t as usize].clone())),
            K::ZExt(x) => self.small(x),
            K::SExt(x) if self.w(e) <= 64 => {
                let (i, t) = self.small(x)?;
                let (xw, w) = (self.w(x), self.w(e));
                Some((i, Rc::new(t.iter().map(|v| (sx(*v as u128, xw) as u128 & mask(w)) as u64).collect())))
            }
            _ => None,
        }
    }
    /// strips extensions and truncations that do not change the value
    fn unwrap_low(&self, e: E) -> E {
        match self.k(e) {
            K::ZExt(x) => self.unwrap_low(x),
            K::Extract(x, 0) if self.ub(x) <= mask(self.w(e)) => self.unwrap_low(x),
            _ => e,
        }
    }
    fn strip_zext(&self, e: E) -> E {
        match self.k(e) {
            K::ZExt(x) => self.strip_zext(x),
            _ => e,
        }
    }
    /// Operations over lookups of one index become lookups themselves.
    fn tab_fold(&mut self, k: &K, w: u32, sup: u32) -> Option<E> {
        if w > 64 {
            return None;
        }
        let ops: Vec<E> = match *k {
            K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => vec![a, b],
            K::Ite(c, a, b) => vec![c, a, b],
            K::Extract(a, _) | K::SExt(a) => vec![a],
            _ => return None,
        };
        if !ops.iter().any(|e| matches!(self.k(self.strip_zext(*e)), K::Table(..))) {
            return None;
        }
        if ops.iter().any(|e| self.w(*e) > 64) {
            return None;
        }
        let apply = |s: &Self, v: &[u128]| -> u128 {
            match *k {
                K::Bin(op, ..) => fold_bin(op, w, v[0], v[1]),
                K::Cmp(c, a, _) => fold_cmp(c, s.w(a), v[0], v[1]) as u128,
                K::Concat(_, b) => (v[0] << s.w(b)) | v[1],
                K::Ite(..) => {
                    if v[0] == 1 {
                        v[1]
                    } else {
                        v[2]
                    }
                }
                K::Extract(_, lo) => (v[0] >> lo) & mask(w),
                K::SExt(a) => (sx(v[0], s.w(a)) as u128) & mask(w),
                _ => unreachable!(),
            }
        };
        let sv = self.sups[sup as usize].clone();
        if sv.len() == 1 && self.vars[sv[0] as usize].w <= 8 {
            // everything is a function of one small variable
            let vw = self.vars[sv[0] as usize].w;
            let mut cols: Vec<Rc<Vec<u128>>> = vec![];
            for &o in &ops {
                cols.push(match self.cval(o) {
                    Some(c) => Rc::new(vec![c; 1 << vw]),
                    None => self.truth(o)?.1,
                });
            }
            let mut t = vec![0u64; 256];
            for x in 0..(1usize << vw) {
                let v: Vec<u128> = cols.iter().map(|c| c[x]).collect();
                t[x] = apply(self, &v) as u64;
            }
            let var = self.var_node(sv[0], vw);
            let idx = self.zext(var, 8);
            return Some(self.table(t, w, idx));
        }
        let mut idx: Option<E> = None;
        for &o in &ops {
            if let Some((i, _)) = self.small(o) {
                if idx.is_some() && idx != Some(i) {
                    return None;
                }
                idx = Some(i);
            }
        }
        let idx = idx?;
        let base = self.strip_zext(idx);
        let mut cols: Vec<Vec<u128>> = vec![];
        for &o in &ops {
            if let Some(c) = self.cval(o) {
                cols.push(vec![c; 256]);
            } else if let Some((_, t)) = self.small(o) {
                cols.push(t.iter().map(|x| *x as u128).collect());
            } else if self.strip_zext(o) == base {
                cols.push((0..256).map(|x| x as u128 & mask(self.w(o))).collect());
            } else {
                return None;
            }
        }
        let mut t = vec![0u64; 256];
        for x in 0..256 {
            let v: Vec<u128> = cols.iter().map(|c| c[x]).collect();
            t[x] = apply(self, &v) as u64;
        }
        Some(self.table(t, w, idx))
    }

    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.raw(K::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, name: &str, w: u32, uf: bool) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, uf });
        self.raw(K::Var(id), w)
    }
    pub fn var_node(&mut self, v: u32, w: u32) -> E {
        self.raw(K::Var(v), w)
    }
    /// The variable of that name, created on first use.
    pub fn input_var(&mut self, name: &str, w: u32) -> E {
        if let Some(&e) = self.inputs.get(name) {
            return e;
        }
        let e = self.var(name, w, false);
        self.inputs.insert(name.to_string(), e);
        e
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fals(&mut self) -> E {
        self.konst(1, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let o = self.konst(1, 1);
        self.bin(Bop::Xor, a, o)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Bop::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Bop::Or, a, b)
    }
    /// inner of a 1-bit negation
    pub fn is_not(&self, e: E) -> Option<E> {
        if let K::Bin(Bop::Xor, a, b) = self.k(e) {
            if self.w(e) == 1 && self.cval(b) == Some(1) {
                return Some(a);
            }
        }
        None
    }

    fn xor_leaves(&self, e: E, out: &mut Vec<E>, c: &mut u128) {
        match self.k(e) {
            K::Bin(Bop::Xor, a, b) => {
                self.xor_leaves(a, out, c);
                self.xor_leaves(b, out, c);
            }
            K::Const(v) => *c ^= v,
            _ => out.push(e),
        }
    }

    pub fn bin(&mut self, op: Bop, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (mut a, mut b) = (a, b);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, fold_bin(op, w, x, y));
        }
        let m = mask(w);
        match op {
            Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let cb = self.cval(b);
        match op {
            Bop::Add => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if let K::Bin(Bop::Add, x, y) = self.k(a) {
                        if let Some(c2) = self.cval(y) {
                            let k = self.konst(w, c.wrapping_add(c2));
                            return self.bin(Bop::Add, x, k);
                        }
                    }
                    // constants distribute over ite with constant arms
                    if let K::Ite(c0, x, y) = self.k(a) {
                        if self.cval(x).is_some() || self.cval(y).is_some() {
                            let p = self.bin(Bop::Add, x, b);
                            let q = self.bin(Bop::Add, y, b);
                            return self.ite(c0, p, q);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Bop::Xor, a, b);
                }
                if let Some(r) = self.linear(a, b) {
                    return r;
                }
                if let Some(r) = self.narrow(op, a, b) {
                    return r;
                }
            }
            Bop::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.konst(w, c.wrapping_neg());
                    return self.bin(Bop::Add, a, k);
                }
                if self.cval(a) == Some(0) {
                    if let K::Bin(Bop::Sub, z, y) = self.k(b) {
                        if self.cval(z) == Some(0) {
                            return y;
                        }
                    }
                }
                // (x + c) - x
                if let K::Bin(Bop::Add, x, y) = self.k(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if let (Some(c1), K::Bin(Bop::Add, x2, y2)) = (self.cval(y), self.k(b)) {
                        if let Some(c2) = self.cval(y2) {
                            if x == x2 {
                                return self.konst(w, c1.wrapping_sub(c2));
                            }
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Bop::Xor, a, b);
                }
            }
            Bop::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if let K::Bin(Bop::Mul, x, y) = self.k(a) {
                        if let Some(c2) = self.cval(y) {
                            let k = self.konst(w, c.wrapping_mul(c2));
                            return self.bin(Bop::Mul, x, k);
                        }
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Bop::Shl, a, k);
                    }
                }
                if let Some(r) = self.narrow(op, a, b) {
                    return r;
                }
            }
            Bop::SDiv | Bop::SRem if w > 1 && self.ub(a) < 1 << (w - 1) && self.ub(b) < 1 << (w - 1) => {
                return self.bin(if op == Bop::SDiv { Bop::UDiv } else { Bop::URem }, a, b);
            }
            Bop::UDiv | Bop::URem => {
                if let Some(c) = cb {
                    if c != 0 && self.ub(a) < c {
                        return if op == Bop::UDiv { self.konst(w, 0) } else { a };
                    }
                    if let (K::Bin(Bop::UDiv, y, kd), Bop::UDiv) = (self.k(a), op) {
                        if let Some(d) = self.cval(kd) {
                            if let Some(p) = d.checked_mul(c).filter(|p| *p <= m && c != 0 && d != 0) {
                                let k = self.konst(w, p);
                                return self.bin(Bop::UDiv, y, k);
                            }
                        }
                    }
                    // (y + C) / c where y + C mod c does not reach c
                    if let K::Bin(Bop::Add, y, kc) = self.k(a) {
                        if let Some(cc) = self.cval(kc) {
                            if c != 0 && self.ub(y) + cc <= m && self.ub(y) + cc % c < c {
                                return if op == Bop::UDiv {
                                    self.konst(w, cc / c)
                                } else {
                                    let k = self.konst(w, cc % c);
                                    self.bin(Bop::Add, y, k)
                                };
                            }
                        }
                    }
                    if c > 1 && w >= 8 && w <= 64 && self.ub(a) < 256 && !c.is_power_of_two() {
                        let idx = self.extract(a, 0, 8);
                        let t: Vec<u64> = (0..256u64).map(|x| if op == Bop::UDiv { x / c as u64 } else { x % c as u64 }).collect();
                        return self.table(t, w, idx);
                    }
                    if c == 1 {
                        return if op == Bop::UDiv { a } else { self.konst(w, 0) };
                    }
                    if c != 0 && c.is_power_of_two() {
                        if op == Bop::UDiv {
                            let k = self.konst(w, c.trailing_zeros() as u128);
                            return self.bin(Bop::LShr, a, k);
                        }
                        let k = self.konst(w, c - 1);
                        return self.bin(Bop::And, a, k);
                    }
                    // narrow: zext(x) / c
                    if let K::ZExt(x) = self.k(a) {
                        let xw = self.w(x);
                        if c != 0 && c <= mask(xw) {
                            let k = self.konst(xw, c);
                            let r = self.bin(op, x, k);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Bop::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    let tz = c.trailing_zeros();
                    let run = c >> tz;
                    if (run & (run + 1)) == 0 {
                        // contiguous mask
                        let n = 128 - run.leading_zeros();
                        let x = self.extract(a, tz, n);
                        let lo = if tz > 0 {
                            let z = self.konst(tz, 0);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(lo, w);
                    }
                    if let K::Bin(Bop::And, x, y) = self.k(a) {
                        if let Some(c2) = self.cval(y) {
                            let k = self.konst(w, c & c2);
                            return self.bin(Bop::And, x, k);
                        }
                    }
                    if let K::ZExt(x) = self.k(a) {
                        let xw = self.w(x);
                        let k = self.konst(xw, c & mask(xw));
                        let r = self.bin(Bop::And, x, k);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 0);
                    }
                    // absorption through nested conjunction
                    if let K::Bin(Bop::And, x, y) = self.k(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                    if let K::Bin(Bop::And, x, y) = self.k(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Bop::And, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Bop::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 1);
                    }
                    if let K::Bin(Bop::Or, x, y) = self.k(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                    if let K::Bin(Bop::Or, x, y) = self.k(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                } else {
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_disjoint(b, a) {
                        return r;
                    }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Bop::Or, x, y);
                        return self.zext(r, w);
                    }
                }
                if let (K::ZExt(x), Some(c)) = (self.k(a), cb) {
                    let xw = self.w(x);
                    if c <= mask(xw) {
                        let k = self.konst(xw, c);
                        let r = self.bin(Bop::Or, x, k);
                        return self.zext(r, w);
                    }
                }
            }
            Bop::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 && cb == Some(1) {
                    if let K::Bin(Bop::Xor, x, y) = self.k(a) {
                        if self.cval(y) == Some(1) {
                            return x;
                        }
                    }
                    // not(ult) etc. are kept as they are
                    match self.k(a) {
                        K::Cmp(Cmp::Ult, x, y) => return self.raw(K::Cmp(Cmp::Ule, y, x), 1),
                        K::Cmp(Cmp::Ule, x, y) => return self.raw(K::Cmp(Cmp::Ult, y, x), 1),
                        K::Cmp(Cmp::Slt, x, y) => return self.raw(K::Cmp(Cmp::Sle, y, x), 1),
                        K::Cmp(Cmp::Sle, x, y) => return self.raw(K::Cmp(Cmp::Slt, y, x), 1),
                        _ => {}
                    }
                }
                let ax = matches!(self.k(a), K::Bin(Bop::Xor, ..));
                let bx = matches!(self.k(b), K::Bin(Bop::Xor, ..));
                if ax || bx {
                    let mut leaves = vec![];
                    let mut c = 0u128;
                    self.xor_leaves(a, &mut leaves, &mut c);
                    self.xor_leaves(b, &mut leaves, &mut c);
                    leaves.sort();
                    let mut out: Vec<E> = vec![];
                    for l in leaves {
                        if out.last() == Some(&l) {
                            out.pop();
                        } else {
                            out.push(l);
                        }
                    }
                    if out.is_empty() {
                        return self.konst(w, c);
                    }
                    let mut r = out[0];
                    for &l in &out[1..] {
                        r = self.raw(K::Bin(Bop::Xor, r, l), w);
                    }
                    if c != 0 {
                        let k = self.konst(w, c);
                        r = self.raw(K::Bin(Bop::Xor, r, k), w);
                    }
                    return r;
                }
            }
            Bop::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let c = c as u32;
                    let x = self.extract(a, 0, w - c);
                    let z = self.konst(c, 0);
                    return self.concat(x, z);
                }
            }
            Bop::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let c = c as u32;
                    let x = self.extract(a, c, w - c);
                    return self.zext(x, w);
                }
            }
            Bop::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c.min(w as u128 - 1)) as u32;
                    let x = self.extract(a, c, w - c);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        // push constant operations through ite with constant arms
        if let (Some(_), K::Ite(c, x, y)) = (cb, self.k(a)) {
            if self.cval(x).is_some() && self.cval(y).is_some() {
                let p = self.bin(op, x, b);
                let q = self.bin(op, y, b);
                return self.ite(c, p, q);
            }
        }
        self.raw(K::Bin(op, a, b), w)
    }

    /// zext(x) op zext(y) that cannot overflow the narrow width
    fn narrow(&mut self, op: Bop, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let x = match self.k(a) {
            K::ZExt(x) => x,
            _ => return None,
        };
        let xw = self.w(x);
        let (ua, ub) = (self.ub(a), self.ub(b));
        let r = if op == Bop::Add { ua.checked_add(ub) } else { ua.checked_mul(ub) }?;
        if r > mask(xw) {
            return None;
        }
        let y = match self.k(b) {
            K::ZExt(y) if self.w(y) == xw => y,
            K::ZExt(y) if self.w(y) < xw => self.zext(y, xw),
            K::Const(c) if c <= mask(xw) => self.konst(xw, c),
            _ => return None,
        };
        let t = self.bin(op, x, y);
        Some(self.zext(t, w))
    }

    fn terms(&self, e: E, c: u128, out: &mut Vec<(E, u128)>, k: &mut u128) {
        let m = mask(self.w(e));
        match self.k(e) {
            K::Const(v) => *k = k.wrapping_add(v.wrapping_mul(c)) & m,
            K::Bin(Bop::Add, a, b) => {
                self.terms(a, c, out, k);
                self.terms(b, c, out, k);
            }
            K::Bin(Bop::Mul, a, b) if self.cval(b).is_some() => {
                self.terms(a, c.wrapping_mul(self.cval(b).unwrap()) & m, out, k)
            }
            _ => match out.iter_mut().find(|t| t.0 == e) {
                Some(t) => t.1 = t.1.wrapping_add(c) & m,
                None => out.push((e, c)),
            },
        }
    }

    /// Sums of lookups over one index, and quotient/remainder pairs.
    fn linear(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w > 64 {
            return None;
        }
        let m = mask(w);
        let mut t = vec![];
        let mut k = 0;
        self.terms(a, 1, &mut t, &mut k);
        self.terms(b, 1, &mut t, &mut k);
        if t.len() > 12 {
            return None;
        }
        let mut changed = false;
        'again: loop {
            for i in 0..t.len() {
                for j in 0..t.len() {
                    if i == j {
                        continue;
                    }
                    let ((x, cx), (y, cy)) = (t[i], t[j]);
                    if i < j {
                        if let (Some((ix, tx)), Some((iy, ty))) = (self.small(x), self.small(y)) {
                            if ix == iy {
                                let n: Vec<u64> = (0..256)
                                    .map(|q| {
                                        (((tx[q] as u128).wrapping_mul(cx)).wrapping_add((ty[q] as u128).wrapping_mul(cy)) & m) as u64
                                    })
                                    .collect();
                                // only worth it when the result is a multiple of the index
                                let live = (self.ub(ix) as usize).min(255);
                                let g = n[1.min(live)].wrapping_sub(n[0]);
                                if n[..=live].iter().enumerate().all(|(q, v)| *v as u128 == (n[0] as u128 + (q as u128) * g as u128) & m) {
                                    let z = self.zext(ix, w);
                                    k = (k + n[0] as u128) & m;
                                    t.remove(j);
                                    t.remove(i);
                                    let mut kk = 0;
                                    self.terms(z, g as u128, &mut t, &mut kk);
                                    changed = true;
                                    continue 'again;
                                }
                            }
                        }
                    }
                    // cx * (p / d) + cy * (p % d) with cx == cy * d
                    let (q, sy) = (self.strip_zext(x), self.strip_zext(y));
                    // cx * (p / de) + cy * ((p % de) / d) with cx == cy * (de / d)
                    let inner: Option<(E, u128)> = if let K::Bin(Bop::UDiv, r, kd) = self.k(sy) {
                        self.cval(kd).map(|d| (r, d))
                    } else if let Some((ix, tx)) = self.small(y) {
                        let live = (self.ub(ix) as usize).min(255);
                        if live >= 10 && (0..=live).all(|v| tx[v] == v as u64 / 10) {
                            Some((ix, 10))
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    if let Some((r, d)) = inner {
                        let r = self.unwrap_low(r);
                        if let K::Bin(Bop::URem, p, kde) = self.k(r) {
                            let de = self.cval(kde).unwrap_or(0);
                            if d > 1 && de > d && de % d == 0 && cx == cy.wrapping_mul(de / d) & m && self.w(p) <= w {
                                let t2 = self.bin(Bop::UDiv, p, kde);
                                if self.unwrap_low(t2) == self.unwrap_low(q) {
                                    let kd = self.konst(self.w(p), d);
                                    let t3 = self.bin(Bop::UDiv, p, kd);
                                    let z = self.zext(t3, w);
                                    t.remove(i.max(j));
                                    t.remove(i.min(j));
                                    let mut kk = 0;
                                    self.terms(z, cy, &mut t, &mut kk);
                                    k = (k + kk) & m;
                                    changed = true;
                                    continue 'again;
                                }
                            }
                        }
                    }
                    if let K::Bin(Bop::URem, p, d) = self.k(sy) {
                        if let Some(dv) = self.cval(d) {
                            if cx == cy.wrapping_mul(dv) & m && self.w(p) <= w {
                                let t2 = self.bin(Bop::UDiv, p, d);
                                if self.strip_zext(t2) == q {
                                    let z = self.zext(p, w);
                                    t.remove(i.max(j));
                                    t.remove(i.min(j));
                                    let mut kk = 0;
                                    self.terms(z, cy, &mut t, &mut kk);
                                    k = (k + kk) & m;
                                    changed = true;
                                    continue 'again;
                                }
                            }
                        }
                    }
                }
            }
            break;
        }
        if !changed {
            return None;
        }
        t.sort();
        let mut r: Option<E> = None;
        for (e, c) in t {
            if c == 0 {
                continue;
            }
            let ck = self.konst(w, c);
            let x = self.bin(Bop::Mul, e, ck);
            r = Some(match r {
                None => x,
                Some(y) => self.bin(Bop::Add, y, x),
            });
        }
        let kc = self.konst(w, k);
        Some(match r {
            None => kc,
            Some(y) => self.bin(Bop::Add, y, kc),
        })
    }

    /// `a | b` where a = concat(h, 0_k) and b fits in k bits.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (hz, h, k) = match self.k(a) {
            K::Concat(h, l) => {
                if self.cval(l) == Some(0) {
                    (0, h, self.w(l))
                } else {
                    return None;
                }
            }
            K::ZExt(c) => match self.k(c) {
                K::Concat(h, l) if self.cval(l) == Some(0) => (w - self.w(c), h, self.w(l)),
                _ => return None,
            },
            _ => return None,
        };
        let low = match self.k(b) {
            K::ZExt(l) if self.w(l) <= k => self.zext(l, k),
            K::Const(c) if c <= mask(k) => self.konst(k, c),
            _ => return None,
        };
        let r = self.concat(h, low);
        Some(if hz > 0 { self.zext(r, w) } else { r })
    }

    pub fn cmp(&mut self, c: Cmp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold_cmp(c, w, x, y);
            return self.konst(1, r as u128);
        }
        if a == b {
            let r = matches!(c, Cmp::Eq | Cmp::Ule | Cmp::Sle);
            return self.konst(1, r as u128);
        }
        if let Some(k) = cb {
            let u = self.ub(a);
            match c {
                Cmp::Eq if u < k => return self.konst(1, 0),
                Cmp::Ult if u < k => return self.konst(1, 1),
                Cmp::Ule if u <= k => return self.konst(1, 1),
                _ => {}
            }
        }
        if let Some(k) = ca {
            let u = self.ub(b);
            match c {
                Cmp::Eq if u < k => return self.konst(1, 0),
                Cmp::Ult if k >= u => return self.konst(1, 0),
                Cmp::Ule if k > u => return self.konst(1, 0),
                _ => {}
            }
        }
        if matches!(c, Cmp::Slt | Cmp::Sle) {
            let h = 1u128 << (w - 1);
            if self.ub(a) < h && self.ub(b) < h {
                let uc = if c == Cmp::Slt { Cmp::Ult } else { Cmp::Ule };
                return self.cmp(uc, a, b);
            }
        }
        let (mut a, mut b) = (a, b);
        if c == Cmp::Eq {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
            if let Some(k) = self.cval(b) {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match self.k(a) {
                    K::ZExt(x) => {
                        let xw = self.w(x);
                        if k > mask(xw) {
                            return self.konst(1, 0);
                        }
                        let kk = self.konst(xw, k);
                        return self.cmp(Cmp::Eq, x, kk);
                    }
                    K::SExt(x) => {
                        let xw = self.w(x);
                        let t = k & mask(xw);
                        if (sx(t, xw) as u128) & mask(w) != k {
                            return self.konst(1, 0);
                        }
                        let kk = self.konst(xw, t);
                        return self.cmp(Cmp::Eq, x, kk);
                    }
                    K::Concat(h, l) => {
                        let lw = self.w(l);
                        let hw = w - lw;
                        let kl = self.konst(lw, k & mask(lw));
                        let kh = self.konst(hw, k >> lw);
                        let p = self.cmp(Cmp::Eq, l, kl);
                        let q = self.cmp(Cmp::Eq, h, kh);
                        return self.and(p, q);
                    }
                    K::Bin(Bop::Xor, x, y) => {
                        if let Some(c1) = self.cval(y) {
                            let kk = self.konst(w, c1 ^ k);
                            return self.cmp(Cmp::Eq, x, kk);
                        }
                        if k == 0 {
                            return self.cmp(Cmp::Eq, x, y);
                        }
                    }
                    K::Bin(Bop::Add, x, y) => {
                        if let Some(c1) = self.cval(y) {
                            let kk = self.konst(w, k.wrapping_sub(c1));
                            return self.cmp(Cmp::Eq, x, kk);
                        }
                    }
                    K::Bin(Bop::Or, x, y) if k == 0 => {
                        let z = self.konst(w, 0);
                        let p = self.cmp(Cmp::Eq, x, z);
                        let q = self.cmp(Cmp::Eq, y, z);
                        return self.and(p, q);
                    }
                    K::Ite(cc, x, y) => {
                        if self.cval(x).is_some() || self.cval(y).is_some() {
                            let p = self.cmp(Cmp::Eq, x, b);
                            let q = self.cmp(Cmp::Eq, y, b);
                            return self.ite(cc, p, q);
                        }
                    }
                    _ => {}
                }
            } else {
                match (self.k(a), self.k(b)) {
                    (K::ZExt(x), K::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(Cmp::Eq, x, y),
                    (K::Concat(h1, l1), K::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                        let p = self.cmp(Cmp::Eq, l1, l2);
                        let q = self.cmp(Cmp::Eq, h1, h2);
                        return self.and(p, q);
                    }
                    (K::Bin(Bop::Xor, x, k1), K::Bin(Bop::Xor, y, k2)) if k1 == k2 => {
                        return self.cmp(Cmp::Eq, x, y)
                    }
                    _ => {}
                }
            }
            return self.raw(K::Cmp(c, a, b), 1);
        }
        // trivial bounds
        match c {
            Cmp::Ult => {
                if cb == Some(0) || ca == Some(mask(w)) {
                    return self.konst(1, 0);
                }
                if ca == Some(0) {
                    let z = self.konst(w, 0);
                    let e = self.cmp(Cmp::Eq, b, z);
                    return self.not(e);
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.cmp(Cmp::Eq, a, z);
                }
                if cb == Some(mask(w)) {
                    let z = self.konst(w, mask(w));
                    let e = self.cmp(Cmp::Eq, a, z);
                    return self.not(e);
                }
            }
            Cmp::Ule => {
                if ca == Some(0) || cb == Some(mask(w)) {
                    return self.konst(1, 1);
                }
                if cb == Some(0) {
                    return self.cmp(Cmp::Eq, a, b);
                }
                if let Some(k) = ca {
                    // k <= b  <=>  !(b < k)
                    let kk = self.konst(w, k);
                    let e = self.cmp(Cmp::Ult, b, kk);
                    return self.not_raw(e);
                }
                if let Some(k) = cb {
                    let kk = self.konst(w, k + 1);
                    return self.cmp(Cmp::Ult, a, kk);
                }
            }
            _ => {}
        }
        match c {
            Cmp::Ult | Cmp::Ule => match (self.k(a), self.k(b)) {
                (K::ZExt(x), K::Const(k)) => {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(xw, k);
                    return self.cmp(c, x, kk);
                }
                (K::Const(k), K::ZExt(x)) => {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(xw, k);
                    return self.cmp(c, kk, x);
                }
                (K::ZExt(x), K::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(c, x, y),
                _ => {}
            },
            Cmp::Slt | Cmp::Sle => {
                let uc = if c == Cmp::Slt { Cmp::Ult } else { Cmp::Ule };
                // zero-extended operands are non-negative
                let na = matches!(self.k(a), K::ZExt(_));
                let nb = matches!(self.k(b), K::ZExt(_));
                let neg = |v: u128| (v >> (w - 1)) & 1 == 1;
                if na && nb {
                    return self.cmp(uc, a, b);
                }
                if na {
                    if let Some(k) = cb {
                        if neg(k) {
                            return self.konst(1, 0);
                        }
                        return self.cmp(uc, a, b);
                    }
                }
                if nb {
                    if let Some(k) = ca {
                        if neg(k) {
                            return self.konst(1, 1);
                        }
                        return self.cmp(uc, a, b);
                    }
                }
                // sign test
                if c == Cmp::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if c == Cmp::Slt && ca == Some(mask(w)) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if let (K::SExt(x), Some(k)) = (self.k(a), cb) {
                    let xw = self.w(x);
                    let t = k & mask(xw);
                    if (sx(t, xw) as u128) & mask(w) == k {
                        let kk = self.konst(xw, t);
                        return self.cmp(c, x, kk);
                    }
                }
            }
            _ => {}
        }
        if let (Some(_), K::Ite(cc, x, y)) = (cb, self.k(a)) {
            if self.cval(x).is_some() && self.cval(y).is_some() {
                let p = self.cmp(c, x, b);
                let q = self.cmp(c, y, b);
                return self.ite(cc, p, q);
            }
        }
        self.raw(K::Cmp(c, a, b), 1)
    }
    fn not_raw(&mut self, e: E) -> E {
        if let Some(v) = self.cval(e) {
            return self.konst(1, v ^ 1);
        }
        self.not(e)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(n) = self.is_not(c) {
            return self.ite(n, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let mut a = a;
        let mut b = b;
        if let K::Ite(c2, x, _) = self.k(a) {
            if c2 == c {
                a = x;
            }
        }
        if let K::Ite(c2, _, y) = self.k(b) {
            if c2 == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        self.raw(K::Ite(c, a, b), w)
    }

    pub fn extract(&mut self, a: E, lo: u32, n: u32) -> E {
        let w = self.w(a);
        debug_assert!(lo + n <= w, "extract {} {} of {}", lo, n, w);
        if n == w {
            return a;
        }
        if self.ub(a) >> lo == 0 {
            return self.konst(n, 0);
        }
        match self.k(a) {
            K::Const(v) => return self.konst(n, v >> lo),
            K::Extract(x, l2) => return self.extract(x, l2 + lo, n),
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo + n <= lw {
                    return self.extract(l, lo, n);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, n);
                }
                let x = self.extract(l, lo, lw - lo);
                let y = self.extract(h, 0, n - (lw - lo));
                return self.concat(y, x);
            }
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.konst(n, 0);
                }
                if lo + n <= xw {
                    return self.extract(x, lo, n);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, n);
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + n <= xw {
                    return self.extract(x, lo, n);
                }
                if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    return self.sext(y, n);
                }
                let s = self.extract(x, xw - 1, 1);
                return self.sext(s, n);
            }
            K::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let p = self.extract(x, lo, n);
                let q = self.extract(y, lo, n);
                return self.bin(op, p, q);
            }
            K::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, n);
                let q = self.extract(y, 0, n);
                return self.bin(op, p, q);
            }
            K::Ite(c, x, y) => {
                let p = self.extract(x, lo, n);
                let q = self.extract(y, lo, n);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.raw(K::Extract(a, lo), n)
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) {
            if w <= 128 {
                return self.konst(w, (x << lw) | y);
            }
        }
        if self.cval(h) == Some(0) && w <= 128 {
            return self.zext(l, w);
        }
        if let (K::Extract(x, lo1), K::Extract(y, lo2)) = (self.k(h), self.k(l)) {
            if x == y && lo1 == lo2 + lw {
                return self.extract(x, lo2, w);
            }
        }
        // the low part may have been simplified on its own
        if let K::Extract(x, lo1) = self.k(h) {
            if lo1 >= lw && self.extract(x, lo1 - lw, lw) == l {
                return self.extract(x, lo1 - lw, w);
            }
        }
        // zext high part
        if let K::ZExt(x) = self.k(h) {
            let t = self.concat(x, l);
            return self.zext(t, w);
        }
        // merge with the low end of a nested concat
        if let K::Concat(h2, m) = self.k(h) {
            if let (K::Extract(x, lo1), K::Extract(y, lo2)) = (self.k(m), self.k(l)) {
                if x == y && lo1 == lo2 + lw {
                    let e = self.extract(x, lo2, self.w(m) + lw);
                    return self.concat(h2, e);
                }
            }
            if let (Some(x), Some(y)) = (self.cval(m), self.cval(l)) {
                let mw = self.w(m);
                if mw + lw <= 128 {
                    let k = self.konst(mw + lw, (x << lw) | y);
                    return self.concat(h2, k);
                }
            }
        }
        // right-nested: concat(h, concat(m, l2))
        if let K::Concat(m, l2) = self.k(l) {
            let t = self.concat(h, m);
            return self.concat(t, l2);
        }
        // ite distributes when both halves share the condition
        if let (K::Ite(c1, a1, b1), K::Ite(c2, a2, b2)) = (self.k(h), self.k(l)) {
            if c1 == c2 {
                let p = self.concat(a1, a2);
                let q = self.concat(b1, b2);
                return self.ite(c1, p, q);
            }
        }
        if let (K::Bin(o1 @ (Bop::Xor | Bop::And | Bop::Or), a1, b1), K::Bin(o2, a2, b2)) = (self.k(h), self.k(l)) {
            if o1 == o2 {
                // reassemble bytes that were split by a store
                let same = |s: &Self, x: E, y: E| match (s.k(x), s.k(y)) {
                    (K::Extract(p, l1), K::Extract(q, l2)) => p == q && l1 == l2 + lw,
                    (K::Const(_), K::Const(_)) => true,
                    _ => false,
                };
                if same(self, a1, a2) && same(self, b1, b2) {
                    let p = self.concat(a1, a2);
                    let q = self.concat(b1, b2);
                    return self.bin(o1, p, q);
                }
            }
        }
        self.raw(K::Concat(h, l), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.k(a) {
            K::Const(v) => self.konst(w, v),
            K::ZExt(x) => self.zext(x, w),
            K::Extract(y, 0) if self.ub(y) <= mask(aw) => {
                let yw = self.w(y);
                if yw > w {
                    self.extract(y, 0, w)
                } else {
                    self.zext(y, w)
                }
            }
            K::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            _ => self.raw(K::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.k(a) {
            K::Const(v) => self.konst(w, sx(v, aw) as u128),
            _ if self.ub(a) < 1 << (aw - 1) => self.zext(a, w),
            K::ZExt(x) => self.zext(x, w),
            K::SExt(x) => self.sext(x, w),
            K::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => {
                if aw == 1 {
                    let p = self.konst(w, mask(w));
                    let q = self.konst(w, 0);
                    return self.ite(a, p, q);
                }
                self.raw(K::SExt(a), w)
            }
        }
    }
    /// Lookup in a 256-entry table indexed by an 8-bit expression.
    pub fn table(&mut self, t: Vec<u64>, w: u32, idx: E) -> E {
        debug_assert_eq!(self.w(idx), 8);
        debug_assert_eq!(t.len(), 256);
        if let Some(c) = self.cval(idx) {
            return self.konst(w, t[c as usize] as u128);
        }
        // a lookup of a lookup
        if let Some((i2, t2)) = self.small(idx) {
            let nt: Vec<u64> = t2.iter().map(|x| t[*x as usize & 255]).collect();
            return self.table(nt, w, i2);
        }
        // of anything over one small variable
        let sv = self.sup(idx).clone();
        if sv.len() == 1 && self.vars[sv[0] as usize].w <= 8 {
            let vw = self.vars[sv[0] as usize].w;
            let var = self.var_node(sv[0], vw);
            if self.strip_zext(idx) != var {
                if let Some((_, tt)) = self.truth(idx) {
                    let mut nt = vec![0u64; 256];
                    for (x, v) in tt.iter().enumerate() {
                        nt[x] = t[*v as usize & 255];
                    }
                    let i2 = self.zext(var, 8);
                    return self.table(nt, w, i2);
                }
            }
        }
        let mut t = t;
        let live = (self.ub(idx) as usize).min(255) + 1;
        for x in live..256 {
            t[x] = t[0];
        }
        if t[..live].iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        if t[..live].iter().enumerate().all(|(i, x)| *x as u128 == i as u128 & mask(w)) {
            return if w >= 8 { self.zext(idx, w) } else { self.extract(idx, 0, w) };
        }
        if w == 1 {
            let ones = t[..live].iter().filter(|x| **x == 1).count();
            if ones == 1 {
                let i = t[..live].iter().position(|x| *x == 1).unwrap();
                let k = self.konst(8, i as u128);
                return self.cmp(Cmp::Eq, idx, k);
            }
            if ones == live - 1 {
                let i = t[..live].iter().position(|x| *x == 0).unwrap();
                let k = self.konst(8, i as u128);
                let e = self.cmp(Cmp::Eq, idx, k);
                return self.not(e);
            }
        }
        let r = Rc::new(t);
        let id = match self.tabmap.get(&r) {
            Some(&i) => i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(r.clone());
                self.tabmap.insert(r, i);
                i
            }
        };
        self.raw(K::Table(id, idx), w)
    }

    /// Evaluate under an assignment.
    pub fn eval(&mut self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        self.gen += 1;
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + 1024;
            self.stamp.resize(n, 0);
            self.cache.resize(n, 0);
        }
        self.eval_rec(e, m)
    }
    pub fn eval_many(&mut self, es: &[E], m: &dyn Fn(u32) -> u128) -> Vec<u128> {
        self.gen += 1;
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + 1024;
            self.stamp.resize(n, 0);
            self.cache.resize(n, 0);
        }
        es.iter().map(|e| self.eval_rec(*e, m)).collect()
    }
    fn eval_rec(&mut self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        let i = e as usize;
        if let K::Const(v) = self.nodes[i].k {
            return v;
        }
        if self.stamp[i] == self.gen {
            return self.cache[i];
        }
        let w = self.nodes[i].w;
        let r = match self.nodes[i].k {
            K::Const(v) => v,
            K::Var(v) => m(v) & mask(w),
            K::Bin(op, a, b) => {
                let x = self.eval_rec(a, m);
                // short circuit
                if (op == Bop::And && x == 0) || (op == Bop::Or && x == mask(w)) {
                    x
                } else {
                    let y = self.eval_rec(b, m);
                    fold_bin(op, w, x, y)
                }
            }
            K::Cmp(c, a, b) => {
                let x = self.eval_rec(a, m);
                let y = self.eval_rec(b, m);
                fold_cmp(c, self.nodes[a as usize].w, x, y) as u128
            }
            K::Ite(c, a, b) => {
                if self.eval_rec(c, m) == 1 {
                    self.eval_rec(a, m)
                } else {
                    self.eval_rec(b, m)
                }
            }
            K::Extract(a, lo) => (self.eval_rec(a, m) >> lo) & mask(w),
            K::Concat(h, l) => {
                let x = self.eval_rec(h, m);
                let y = self.eval_rec(l, m);
                let lw = self.nodes[l as usize].w;
                if lw >= 128 {
                    y
                } else {
                    (x << lw) | y
                }
            }
            K::ZExt(a) => self.eval_rec(a, m),
            K::SExt(a) => {
                let x = self.eval_rec(a, m);
                (sx(x, self.nodes[a as usize].w) as u128) & mask(w)
            }
            K::Table(t, a) => {
                let x = self.eval_rec(a, m) as usize;
                self.tables[t as usize][x] as u128
            }
        };
        self.stamp[i] = self.gen;
        self.cache[i] = r;
        r
    }

    /// For an expression over a single variable of at most 8 bits: its value
    /// for each of the 256 (2^w) assignments.
    pub fn truth(&mut self, e: E) -> Option<(u32, Rc<Vec<u128>>)> {
        let s = self.sup(e).clone();
        if s.len() != 1 {
            return None;
        }
        let v = s[0];
        let vw = self.vars[v as usize].w;
        if vw > 8 {
            return None;
        }
        if let Some(Some(t)) = self.tt.get(&e) {
            return Some((v, t.clone()));
        }
        let mut out = Vec::with_capacity(1 << vw);
        for x in 0..(1u128 << vw) {
            out.push(self.eval(e, &|_| x));
        }
        let t = Rc::new(out);
        self.tt.insert(e, Some(t.clone()));
        Some((v, t))
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.k(e) {
            K::Const(v) => format!("{:#x}:{}", v, self.w(e)),
            K::Var(v) => self.vars[v as usize].name.clone(),
            K::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            K::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            K::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            K::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, self.w(e)),
            K::Concat(a, b) => format!("({} ++ {})", self.show(a, d), self.show(b, d)),
            K::ZExt(a) => format!("zx{}({})", self.w(e), self.show(a, d)),
            K::SExt(a) => format!("sx{}({})", self.w(e), self.show(a, d)),
            K::Table(t, a) => format!("T{}[{}]", t, self.show(a, d)),
        }
    }
}
