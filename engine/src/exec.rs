//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::ll::{func_addr, FUNC_BASE};
use crate::mem::*;
use crate::pc::*;
use crate::val::Val;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub struct Code {
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub argregs: Vec<u32>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub code: Rc<Code>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack_mark: u32,
}

/// One application of an idealised primitive.
#[derive(Clone)]
pub struct App {
    pub f: u8,
    pub ins: Rc<Vec<E>>,
    pub outs: Rc<Vec<E>>,
}

pub const F_SHA: u8 = 0;
pub const F_AES: u8 = 1;

#[derive(Clone, Debug)]
pub enum Rec {
    Bytes(String, Rc<Vec<E>>),
    Choice(String, u32, u32),
}

#[derive(Clone)]
pub struct State {
    pub entry: usize,
    pub cur: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub recs: Vec<Rec>,
    pub obs: Vec<Rc<Vec<Val>>>,
    pub apps: Rc<Vec<App>>,
    pub instrs: u64,
    pub forks: u32,
    pub rng: u64,
    pub rng_mode: u32,
    /// what the random source handed out since recording began
    pub drawn: Rc<Vec<Val>>,
    pub clock: u64,
    pub panic_ok: bool,
    pub reached: Vec<u32>,
    pub asserts: u64,
    pub tls_errno: u64,
    pub limit: u64,
    pub alloc_limit: u64,
    pub aesni: u64,
}

#[derive(Debug)]
pub enum End {
    Ok,
    Assert(String),
    Panic(String),
    Mem(String),
    Abort(String),
    Infeasible,
    /// the engine cannot continue (unsupported construct, limits)
    Limit(String),
    Unsupported(String),
}

pub enum Step {
    Next,
    Jump,
    End(End),
}

type R<T> = Result<T, End>;

#[derive(Default, Clone)]
pub struct EntryStats {
    pub paths: u64,
    pub ok: u64,
    pub panics_ok: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub assert_sym: u64,
    pub incomplete: Vec<String>,
    pub reached: BTreeMap<u32, u64>,
    pub violations: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Ic {
    None,
    HashOne,
    Sha,
    /// rust-crypto's portable AES-256: key schedule, block encryption, block decryption
    AesKey,
    AesEnc,
    AesDec,
    PanicFmt,
    Nop,
}

pub struct Exec {
    pub m: Module,
    pub ex: Exprs,
    pub s: Solver,
    pub code: Vec<Option<Rc<Code>>>,
    ic: Vec<Ic>,
    pub work: Vec<State>,
    pub stats: Vec<EntryStats>,
    pub entries: Vec<String>,
    pub fused: HashSet<u32>,
    uf_cache: HashMap<(u8, Rc<Vec<E>>), Rc<Vec<E>>>,
    pub var_app: HashMap<u32, (u8, Rc<Vec<E>>)>,
    pub max_instrs: u64,
    pub asserted: HashMap<String, (u64, u64)>,
    pub trace: bool,
    pub trace_forks: u32,
    /// how deep the harnesses should go (0 quick, 1 thorough)
    pub tier: u32,
    pub deadline: Option<std::time::Instant>,
    pub slice: std::time::Instant,
}

fn memerr(e: MemErr) -> End {
    End::Mem(format!("{:x?}", e))
}

impl Exec {
    pub fn new(mut m: Module, ex: Exprs) -> Exec {
        let n = m.funcs.len();
        let mut ic = vec![Ic::None; n];
        for (i, f) in m.funcs.iter().enumerate() {
            ic[i] = intercept_kind(&f.name);
        }
        m.funcs.shrink_to_fit();
        Exec {
            m,
            ex,
            s: Solver::new(60_000),
            code: (0..n).map(|_| None).collect(),
            ic,
            work: vec![],
            stats: vec![],
            entries: vec![],
            fused: HashSet::new(),
            uf_cache: HashMap::new(),
            var_app: HashMap::new(),
            max_instrs: 400_000_000,
            asserted: HashMap::new(),
            trace: false,
            trace_forks: 0,
            tier: 0,
            deadline: None,
            slice: std::time::Instant::now(),
        }
    }

    pub fn initial_mem(&mut self) -> Mem {
        let mut objs = vec![];
        for i in 0..self.m.globals.len() {
            let (ty, init, ro) = {
                let g = &self.m.globals[i];
                (g.ty, g.init.clone(), g.constant)
            };
            let sz = self.m.types.size(ty) as usize;
            let mut o = Obj::new(sz);
            o.ro = ro;
            if let Some(c) = init {
                let mut p = crate::ll::Parser::new(&mut self.m, &mut self.ex);
                p.const_bytes(ty, &c, &mut o.data);
            }
            objs.push(Rc::new(o));
        }
        Mem::new(objs)
    }

    pub fn get_code(&mut self, f: u32) -> Rc<Code> {
        if let Some(c) = &self.code[f as usize] {
            return c.clone();
        }
        {
            let mut p = crate::ll::Parser::new(&mut self.m, &mut self.ex);
            p.parse_body(f);
        }
        let fun = &mut self.m.funcs[f as usize];
        let c = Rc::new(Code {
            blocks: std::mem::take(&mut fun.blocks),
            nregs: fun.nregs as usize,
            argregs: fun.argregs.clone(),
        });
        self.code[f as usize] = Some(c.clone());
        c
    }

    pub fn start(&mut self, mem: &Mem, entry: usize, name: &str) -> Option<State> {
        let f = *self.m.fidx.get(name)?;
        if !self.m.funcs[f as usize].defined {
            return None;
        }
        let code = self.get_code(f);
        let fr = Frame { f, regs: vec![Val::C(0); code.nregs], code, block: 0, ip: 0, stack_mark: 0 };
        let mut mem = mem.clone();
        let errno = mem.alloc(4);
        self.fused.insert(f);
        Some(State {
            entry,
            cur: fr,
            frames: vec![],
            mem,
            pc: Pc::default(),
            recs: vec![],
            obs: vec![],
            apps: Rc::new(vec![]),
            instrs: 0,
            forks: 0,
            rng: 0x1234_5678_9abc_def0,
            rng_mode: 0,
            drawn: Rc::new(vec![]),
            clock: 1_500_000_000,
            panic_ok: false,
            reached: vec![],
            asserts: 0,
            tls_errno: errno,
            limit: self.max_instrs,
            alloc_limit: 1 << 26,
            aesni: 1,
        })
    }

    // ---- values -------------------------------------------------------
    #[inline]
    fn v(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => st.cur.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.ex.konst(w, *c as u128),
            Val::S(e) => {
                debug_assert_eq!(self.ex.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn from_e(&self, e: E) -> Val {
        if self.ex.w(e) <= 64 {
            if let Some(c) = self.ex.cval(e) {
                return Val::C(c as u64);
            }
        }
        Val::S(e)
    }
    fn m64(w: u32) -> u64 {
        if w >= 64 {
            u64::MAX
        } else {
            (1u64 << w) - 1
        }
    }
    fn bin1(&mut self, op: Bop, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = Self::m64(w);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bop::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => {
                    if w <= 64 {
                        fold_bin(op, w, x as u128, y as u128) as u64
                    } else {
                        x
                    }
                }
            };
            if w <= 64 {
                return Val::C(r & m);
            }
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = self.ex.bin(op, x, y);
        self.from_e(e)
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sxv = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sxv(x) < sxv(y),
                Pred::Sle => sxv(x) <= sxv(y),
                Pred::Sgt => sxv(x) > sxv(y),
                Pred::Sge => sxv(x) >= sxv(y),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = match p {
            Pred::Eq => self.ex.cmp(Cmp::Eq, x, y),
            Pred::Ne => {
                let e = self.ex.cmp(Cmp::Eq, x, y);
                self.ex.not(e)
            }
            Pred::Ult => self.ex.cmp(Cmp::Ult, x, y),
            Pred::Ule => self.ex.cmp(Cmp::Ule, x, y),
            Pred::Ugt => self.ex.cmp(Cmp::Ult, y, x),
            Pred::Uge => self.ex.cmp(Cmp::Ule, y, x),
            Pred::Slt => self.ex.cmp(Cmp::Slt, x, y),
            Pred::Sle => self.ex.cmp(Cmp::Sle, x, y),
            Pred::Sgt => self.ex.cmp(Cmp::Slt, y, x),
            Pred::Sge => self.ex.cmp(Cmp::Sle, y, x),
        };
        self.from_e(e)
    }
    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        match (k, a) {
            (Cast::Same, _) => a.clone(),
            (Cast::Trunc, Val::C(c)) => Val::C(c & Self::m64(tw)),
            (Cast::ZExt, Val::C(c)) if tw <= 64 => Val::C(*c),
            (Cast::SExt, Val::C(c)) if tw <= 64 => {
                Val::C(((((*c) << (64 - fw)) as i64 >> (64 - fw)) as u64) & Self::m64(tw))
            }
            _ => {
                let e = self.to_e(a, fw);
                let r = match k {
                    Cast::Trunc => self.ex.extract(e, 0, tw),
                    Cast::ZExt => self.ex.zext(e, tw),
                    _ => self.ex.sext(e, tw),
                };
                self.from_e(r)
            }
        }
    }
    fn lanes(v: &Val) -> Rc<Vec<Val>> {
        match v {
            Val::A(a) => a.clone(),
            _ => panic!("not a vector"),
        }
    }
    fn flatten(&mut self, v: &Val, ty: TyId) -> E {
        match self.m.types.get(ty).clone() {
            Ty::Vec(n, e) => {
                let l = Self::lanes(v);
                let mut acc: Option<E> = None;
                for i in (0..n as usize).rev() {
                    let x = self.flatten(&l[i].clone(), e);
                    acc = Some(match acc {
                        None => x,
                        Some(h) => self.ex.concat(h, x),
                    });
                }
                acc.unwrap()
            }
            _ => {
                let w = self.m.types.bits(ty) as u32;
                self.to_e(v, w)
            }
        }
    }
    fn unflatten(&mut self, e: E, ty: TyId) -> Val {
        match self.m.types.get(ty).clone() {
            Ty::Vec(n, el) => {
                let w = self.m.types.bits(el) as u32;
                let mut out = vec![];
                for i in 0..n {
                    let x = self.ex.extract(e, i * w, w);
                    out.push(self.from_e(x));
                }
                Val::A(Rc::new(out))
            }
            _ => self.from_e(e),
        }
    }
    pub fn zero(&mut self, ty: TyId) -> Val {
        match self.m.types.get(ty).clone() {
            Ty::Int(w) if w > 64 => Val::S(self.ex.konst(w, 0)),
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(es, _) => {
                let v = es.iter().map(|e| self.zero(*e)).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::C(0),
        }
    }

    fn load_ty(&mut self, st: &State, a: u64, ty: TyId) -> R<Val> {
        match self.m.types.get(ty).clone() {
            Ty::Int(w) => {
                if w > 128 {
                    return Err(End::Unsupported(format!("load i{}", w)));
                }
                st.mem.load(&mut self.ex, a, w).map_err(memerr)
            }
            Ty::Ptr | Ty::F64 => st.mem.load(&mut self.ex, a, 64).map_err(memerr),
            Ty::F32 => st.mem.load(&mut self.ex, a, 32).map_err(memerr),
            Ty::Vec(n, e) => {
                let bits = self.m.types.bits(e);
                if bits % 8 != 0 {
                    let t = bits * n as u64;
                    let v = st.mem.load(&mut self.ex, a, t as u32).map_err(memerr)?;
                    let e0 = self.to_e(&v, t as u32);
                    return Ok(self.unflatten(e0, ty));
                }
                let mut out = vec![];
                for i in 0..n as u64 {
                    out.push(self.load_ty(st, a + i * bits / 8, e)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            Ty::Arr(n, e) => {
                let s = self.m.types.size(e);
                let mut out = vec![];
                for i in 0..n {
                    out.push(self.load_ty(st, a + i * s, e)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            Ty::Struct(es, _) => {
                let (offs, _) = self.m.types.layout(ty);
                let mut out = vec![];
                for (i, e) in es.iter().enumerate() {
                    out.push(self.load_ty(st, a + offs[i], *e)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            t => Err(End::Unsupported(format!("load {:?}", t))),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: TyId, v: &Val) -> R<()> {
        match self.m.types.get(ty).clone() {
            Ty::Int(w) => {
                if w > 128 {
                    return Err(End::Unsupported(format!("store i{}", w)));
                }
                st.mem.store(&mut self.ex, a, w, v).map_err(memerr)
            }
            Ty::Ptr | Ty::F64 => st.mem.store(&mut self.ex, a, 64, v).map_err(memerr),
            Ty::F32 => st.mem.store(&mut self.ex, a, 32, v).map_err(memerr),
            Ty::Vec(n, e) => {
                let bits = self.m.types.bits(e);
                if bits % 8 != 0 {
                    let x = self.flatten(v, ty);
                    let w = self.ex.w(x);
                    return st.mem.store(&mut self.ex, a, w, &Val::S(x)).map_err(memerr);
                }
                let l = Self::lanes(v);
                for i in 0..n as usize {
                    self.store_ty(st, a + i as u64 * bits / 8, e, &l[i])?;
                }
                Ok(())
            }
            Ty::Arr(n, e) => {
                let s = self.m.types.size(e);
                let l = Self::lanes(v);
                for i in 0..n as usize {
                    self.store_ty(st, a + i as u64 * s, e, &l[i])?;
                }
                Ok(())
            }
            Ty::Struct(es, _) => {
                let (offs, _) = self.m.types.layout(ty);
                let l = Self::lanes(v);
                for (i, e) in es.iter().enumerate() {
                    self.store_ty(st, a + offs[i], *e, &l[i])?;
                }
                Ok(())
            }
            t => Err(End::Unsupported(format!("store {:?}", t))),
        }
    }

    // ---- solver-facing ------------------------------------------------
    fn unknown() -> End {
        End::Limit("solver gave no answer".into())
    }

    /// Idealised applications contradicting each other under the current model
    /// changed by `m`: equal inputs must go with equal outputs, and only with
    /// those. Considers pairs of which one has an output variable in `relevant`.
    fn clashes(&mut self, st: &State, relevant: Option<&[u32]>, m: &[(u32, u128)]) -> Vec<(usize, usize)> {
        let mut rel: HashSet<usize> = HashSet::new();
        if let Some(vs) = relevant {
            let mut seen: HashSet<*const Vec<E>> = HashSet::new();
            for v in vs {
                if let Some((_, ins)) = self.var_app.get(v) {
                    seen.insert(Rc::as_ptr(ins));
                }
            }
            if seen.is_empty() {
                return vec![];
            }
            for (i, a) in st.apps.iter().enumerate() {
                if seen.contains(&Rc::as_ptr(&a.ins)) {
                    rel.insert(i);
                }
            }
        }
        let all = relevant.is_none();
        let over: HashMap<u32, u128> = m.iter().copied().collect();
        let mut exprs: Vec<E> = vec![];
        for a in st.apps.iter() {
            exprs.extend(a.ins.iter());
            exprs.extend(a.outs.iter());
        }
        let vals = self.ex.eval_many(&exprs, &|v| match over.get(&v) {
            Some(x) => *x,
            None => st.pc.value(v),
        });
        let mut at = 0;
        let mut by_in: HashMap<(u8, &[u128]), usize> = HashMap::new();
        let mut by_out: HashMap<(u8, usize, &[u128], &[u128]), usize> = HashMap::new();
        let mut parts = vec![];
        for a in st.apps.iter() {
            let i = &vals[at..at + a.ins.len()];
            at += a.ins.len();
            let o = &vals[at..at + a.outs.len()];
            at += a.outs.len();
            parts.push((a.f, i, o));
        }
        let mut out = vec![];
        // relevant ones are compared with everything
        for (j, (f, i, o)) in parts.iter().enumerate() {
            let isr = all || rel.contains(&j);
            // a block cipher is one to one under each key
            let key: &[u128] = if *f == F_AES { &i[..32] } else { &[] };
            match by_in.get(&(*f, *i)) {
                Some(k) if (isr || rel.contains(k)) && parts[*k].2 != *o => out.push((*k, j)),
                Some(k) if isr && !all => {
                    let _ = k;
                    by_in.insert((*f, *i), j);
                }
                Some(_) => {}
                None => {
                    by_in.insert((*f, *i), j);
                }
            }
            match by_out.get(&(*f, i.len(), key, *o)) {
                Some(k) if (isr || rel.contains(k)) && parts[*k].1 != *i => out.push((*k, j)),
                Some(k) if isr && !all => {
                    let _ = k;
                    by_out.insert((*f, i.len(), key, *o), j);
                }
                Some(_) => {}
                None => {
                    by_out.insert((*f, i.len(), key, *o), j);
                }
            }
            if out.len() >= 16 {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }
    /// Conjoin the axiom relating two idealised applications.
    fn relate(&mut self, st: &mut State, i: usize, j: usize) -> R<()> {
        let (x, y) = (st.apps[i].clone(), st.apps[j].clone());
        Rc::make_mut(&mut st.pc.axioms).insert((i, j));
        let n = if x.f == F_AES { 32 } else { 0 };
        let a = self.vec_eq(&x.ins[n..], &y.ins[n..]);
        let b = self.vec_eq(&x.outs, &y.outs);
        let na = self.ex.not(a);
        let nb = self.ex.not(b);
        let p = self.ex.or(na, b);
        let q = self.ex.or(nb, a);
        let mut ax = self.ex.and(p, q);
        if n > 0 {
            let k = self.vec_eq(&x.ins[..n], &y.ins[..n]);
            let nk = self.ex.not(k);
            ax = self.ex.or(nk, ax);
        }
        match self.ex.cval(ax) {
            Some(1) => return Ok(()),
            Some(_) => return Err(End::Infeasible),
            None => {}
        }
        let r = st.pc.both(&mut self.ex, &mut self.s, ax).map_err(|_| Self::unknown())?;
        match r.t {
            Some(m) => {
                st.pc.add(&mut self.ex, ax, &m);
                Ok(())
            }
            None => Err(End::Infeasible),
        }
    }
    /// Make the current model respect every pair of idealised applications.
    pub fn settle(&mut self, st: &mut State) -> R<()> {
        loop {
            let c = self.clashes(st, None, &[]);
            if c.is_empty() {
                return Ok(());
            }
            for (i, j) in c {
                if st.pc.axioms.contains(&(i, j)) {
                    return Err(End::Limit("axiom does not settle the model".into()));
                }
                self.relate(st, i, j)?;
            }
        }
    }
    fn vec_eq(&mut self, a: &[E], b: &[E]) -> E {
        let mut r = self.ex.tru();
        for i in 0..a.len() {
            let c = self.ex.cmp(Cmp::Eq, a[i], b[i]);
            r = self.ex.and(r, c);
            if self.ex.cval(r) == Some(0) {
                break;
            }
        }
        r
    }
    pub fn both(&mut self, st: &mut State, e: E) -> R<Both> {
        loop {
            if self.deadline.map_or(false, |d| std::time::Instant::now() > d) {
                return Err(End::Limit("time budget".into()));
            }
            let r = st.pc.both(&mut self.ex, &mut self.s, e).map_err(|_| Self::unknown())?;
            if st.apps.is_empty() {
                return Ok(r);
            }
            let sup = self.ex.sup(e).clone();
            let rel: Vec<u32> = st.pc.vars_for(&sup).into_iter().filter(|v| self.ex.vars[*v as usize].uf).collect();
            if rel.is_empty() {
                return Ok(r);
            }
            let mut c = vec![];
            for m in [&r.t, &r.f].into_iter().flatten() {
                c.extend(self.clashes(st, Some(&rel), m));
            }
            c.sort();
            c.dedup();
            if c.is_empty() {
                return Ok(r);
            }
            for (i, j) in c {
                if st.pc.axioms.contains(&(i, j)) {
                    return Err(End::Limit("axiom does not settle the model".into()));
                }
                self.relate(st, i, j)?;
            }
        }
    }

    /// Decide a condition, forking when both sides are possible. The returned
    /// side is the one the current state continues with; the other state is
    /// produced by `mk`.
    fn decide(&mut self, st: &mut State, e: E, mk: &dyn Fn(&mut State)) -> R<bool> {
        if let Some(c) = self.ex.cval(e) {
            return Ok(c == 1);
        }
        self.stats[st.entry].sym_branches += 1;
        let b = self.both(st, e)?;
        match (b.t, b.f) {
            (Some(t), Some(f)) => {
                self.stats[st.entry].forks += 1;
                if self.trace_forks > 0 {
                    self.trace_forks -= 1;
                    eprintln!("FORK {} at {}", self.ex.show(e, 9), self.backtrace(st, 4).join(" < "));
                }
                let ne = self.ex.not(e);
                let mut other = st.clone();
                other.forks += 1;
                st.forks += 1;
                other.pc.add(&mut self.ex, ne, &f);
                mk(&mut other);
                self.work.push(other);
                st.pc.add(&mut self.ex, e, &t);
                Ok(true)
            }
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (None, None) => Err(End::Infeasible),
        }
    }

    /// Force an expression to a single value, forking over all its feasible
    /// values. The other states re-execute the current instruction.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(c) = self.ex.cval(e) {
            return Ok(c as u64);
        }
        if st.forks > 100_000 {
            return Err(End::Limit("too many forks on one path".into()));
        }
        // prefer splitting on an ite condition
        if let K::Ite(c, ..) = self.ex.k(e) {
            let t = self.decide(st, c, &|_| {})?;
            let (a, b) = match self.ex.k(e) {
                K::Ite(_, a, b) => (a, b),
                _ => unreachable!(),
            };
            return self.concretize(st, if t { a } else { b });
        }
        let v = st.pc.eval(&mut self.ex, e);
        let w = self.ex.w(e);
        let k = self.ex.konst(w, v);
        let eq = self.ex.cmp(Cmp::Eq, e, k);
        let t = self.decide(st, eq, &|_| {})?;
        if t {
            Ok(v as u64)
        } else {
            // the model value was excluded meanwhile: cannot happen
            Err(End::Infeasible)
        }
    }

    /// Resolve an address for an access of n bytes.
    fn addr(&mut self, st: &mut State, p: &Val) -> R<u64> {
        match p {
            Val::C(a) => Ok(*a),
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => Err(End::Unsupported("vector address".into())),
        }
    }

    /// Load through a symbolic address when the offset depends on a single
    /// byte: build a table. Returns None when not applicable.
    fn table_load(&mut self, st: &mut State, e: E, bits: u32) -> R<Option<Val>> {
        let sup = self.ex.sup(e).clone();
        if bits > 64 {
            return Ok(None);
        }
        if sup.len() != 1 || self.ex.vars[sup[0] as usize].w > 8 {
            return self.index_load(st, e, bits);
        }
        let v = sup[0];
        let w = self.ex.vars[v as usize].w;
        let dom = st.pc.dom_over(&mut self.ex, v);
        let (_, t) = self.ex.truth(e).unwrap();
        let nb = ((bits + 7) / 8) as usize;
        let mut tab = vec![0u64; 256];
        let mut first: Option<u64> = None;
        let mut ids: HashSet<u64> = HashSet::new();
        for x in 0..(1usize << w) {
            if let Some(d) = &dom {
                if !dom_has(d, x) {
                    continue;
                }
            }
            let a = t[x] as u64;
            ids.insert(a >> 32);
            if ids.len() > 1 {
                return self.index_load(st, e, bits);
            }
            match st.mem.range(a, nb) {
                Ok((o, off)) => {
                    if !o.sym.is_empty() && o.sym[off..off + nb].iter().any(|s| *s != 0) {
                        return self.index_load(st, e, bits);
                    }
                    let mut b = [0u8; 8];
                    b[..nb].copy_from_slice(&o.data[off..off + nb]);
                    let mut val = u64::from_le_bytes(b);
                    if bits < 64 {
                        val &= (1 << bits) - 1;
                    }
                    tab[x] = val;
                    first.get_or_insert(val);
                }
                Err(_) => return self.index_load(st, e, bits),
            }
        }
        // unreachable entries take an arbitrary value: reuse a real one to
        // keep the table small
        let f = first.unwrap_or(0);
        for x in 0..256 {
            let live = x < (1usize << w) && dom.map(|d| dom_has(&d, x)).unwrap_or(true);
            if !live {
                tab[x] = f;
            }
        }
        let var = self.var_expr(v);
        let idx = self.ex.zext(var, 8);
        let r = self.ex.table(tab, bits, idx);
        Ok(Some(self.from_e(r)))
    }
    /// As above for base + scale * x where x is known to stay small.
    fn index_load(&mut self, st: &mut State, e: E, bits: u32) -> R<Option<Val>> {
        if let Some((idx, addrs)) = self.ex.small(e) {
            return self.addr_table_load(st, idx, &addrs, bits);
        }
        // peel constant offsets and scales
        let (mut x, mut base, mut scale) = (e, 0u64, 1u64);
        loop {
            match self.ex.k(x) {
                K::Bin(Bop::Add, a, b) if self.ex.cval(b).is_some() => {
                    base = base.wrapping_add(scale.wrapping_mul(self.ex.cval(b).unwrap() as u64));
                    x = a;
                }
                K::Bin(Bop::Mul, a, b) if self.ex.cval(b).is_some() => {
                    scale = scale.wrapping_mul(self.ex.cval(b).unwrap() as u64);
                    x = a;
                }
                // a shift left: concat(y, 0)
                K::Concat(h, l) if self.ex.cval(l) == Some(0) => {
                    let lw = self.ex.w(l);
                    if lw > 16 {
                        return Ok(None);
                    }
                    scale = scale.wrapping_mul(1 << lw);
                    x = h;
                }
                K::ZExt(a) => x = a,
                K::Extract(a, 0) if self.ex.ub(a) <= mask(self.ex.w(x)) => x = a,
                _ => break,
            }
        }
        let o0 = base >> 32;
        let nb = ((bits + 7) / 8) as usize;
        let mut tab = vec![0u64; 256];
        let mut n = 0usize;
        for i in 0..256u64 {
            let a = base.wrapping_add(scale.wrapping_mul(i));
            if a >> 32 != o0 {
                break;
            }
            match st.mem.range(a, nb) {
                Ok((o, off)) => {
                    if !o.sym.is_empty() && o.sym[off..off + nb].iter().any(|s| *s != 0) {
                        break;
                    }
                    let mut b = [0u8; 8];
                    b[..nb].copy_from_slice(&o.data[off..off + nb]);
                    let mut val = u64::from_le_bytes(b);
                    if bits < 64 {
                        val &= (1 << bits) - 1;
                    }
                    tab[i as usize] = val;
                    n += 1;
                }
                Err(_) => break,
            }
        }
        if n == 0 {
            return Ok(None);
        }
        let w = self.ex.w(x);
        let idx;
        if self.ex.ub(x) < n as u128 {
            idx = if w >= 8 { self.ex.extract(x, 0, 8) } else { self.ex.zext(x, 8) };
        } else {
            let k = self.ex.konst(w, n as u128);
            let lt = self.ex.cmp(Cmp::Ult, x, k);
            let b = self.both(st, lt)?;
            if b.f.is_some() {
                return Ok(None);
            }
            // equal to x on this path, with a bound visible in the expression
            let x8 = self.ex.extract(x, 0, 8);
            idx = if n < 256 {
                let k8 = self.ex.konst(8, n as u128);
                self.ex.bin(Bop::URem, x8, k8)
            } else {
                x8
            };
        }
        let r = self.ex.table(tab, bits, idx);
        Ok(Some(self.from_e(r)))
    }

    /// The address is a table over `idx`.
    fn addr_table_load(&mut self, st: &mut State, idx: E, addrs: &[u64], bits: u32) -> R<Option<Val>> {
        let nb = ((bits + 7) / 8) as usize;
        let iw = self.ex.w(idx);
        let n = if iw < 8 { 1usize << iw } else { 256 };
        let ub = self.ex.ub(idx);
        let mut tab = vec![0u64; 256];
        let mut bad: Vec<usize> = vec![];
        let mut ids: HashSet<u64> = HashSet::new();
        let mut first = None;
        for i in 0..n.min(addrs.len()) {
            if i as u128 > ub {
                break;
            }
            let a = addrs[i];
            let ok = match st.mem.range(a, nb) {
                Ok((o, off)) if o.sym.is_empty() || o.sym[off..off + nb].iter().all(|s| *s == 0) => {
                    let mut b = [0u8; 8];
                    b[..nb].copy_from_slice(&o.data[off..off + nb]);
                    let mut val = u64::from_le_bytes(b);
                    if bits < 64 {
                        val &= (1 << bits) - 1;
                    }
                    tab[i] = val;
                    first.get_or_insert(val);
                    ids.insert(a >> 32);
                    true
                }
                _ => false,
            };
            if !ok {
                bad.push(i);
            }
        }
        if ids.len() != 1 {
            return Ok(None);
        }
        if !bad.is_empty() {
            // allowed only when the path excludes those indices
            let mut c = self.ex.konst(1, 0);
            for &i in &bad {
                let k = self.ex.konst(iw, i as u128);
                let q = self.ex.cmp(Cmp::Eq, idx, k);
                c = self.ex.bin(Bop::Or, c, q);
            }
            let b = self.both(st, c)?;
            if b.t.is_some() {
                return Ok(None);
            }
            for &i in &bad {
                tab[i] = first.unwrap();
            }
        }
        let idx8 = if iw < 8 { self.ex.zext(idx, 8) } else { idx };
        if self.ex.w(idx8) != 8 {
            return Ok(None);
        }
        let r = self.ex.table(tab, bits, idx8);
        Ok(Some(self.from_e(r)))
    }

    fn var_expr(&mut self, v: u32) -> E {
        // variables are interned in order; find the node
        let w = self.ex.vars[v as usize].w;
        self.ex.var_node(v, w)
    }

    // ---- main loop ----------------------------------------------------
    pub fn run(&mut self, st: &mut State, quantum: u64) -> Option<End> {
        let mut n = 0u64;
        loop {
            let code = st.cur.code.clone();
            // run inside the current frame until it changes
            let r = self.run_frame(st, &code, &mut n, quantum);
            match r {
                Ok(true) => {
                    if n >= quantum {
                        return None;
                    }
                }
                Ok(false) => return Some(End::Ok),
                Err(e) => return Some(e),
            }
        }
    }

    /// Ok(true): the frame changed or the quantum ended; Ok(false): the entry returned.
    fn run_frame(&mut self, st: &mut State, code: &Rc<Code>, n: &mut u64, quantum: u64) -> R<bool> {
        loop {
            let blk = &code.blocks[st.cur.block as usize];
            let ip = st.cur.ip as usize;
            let inst = &blk.insts[ip];
            st.instrs += 1;
            *n += 1;
            if *n & 0xfff == 0 {
                if st.instrs > st.limit {
                    return Err(End::Limit(format!("path exceeds {} instructions", st.limit)));
                }
                if *n >= quantum || self.slice.elapsed().as_millis() > 150 {
                    *n = quantum;
                    st.instrs -= 1;
                    return Ok(true);
                }
            }
            match inst {
                Inst::Bin { d, op, w, lanes, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    let r = if *lanes == 0 {
                        self.bin1(*op, *w, &x, &y)
                    } else {
                        let (p, q) = (Self::lanes(&x), Self::lanes(&y));
                        Val::A(Rc::new((0..*lanes as usize).map(|i| self.bin1(*op, *w, &p[i], &q[i])).collect()))
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::ICmp { d, p, w, lanes, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    let r = if *lanes == 0 {
                        self.icmp1(*p, *w, &x, &y)
                    } else {
                        let (l, q) = (Self::lanes(&x), Self::lanes(&y));
                        Val::A(Rc::new((0..*lanes as usize).map(|i| self.icmp1(*p, *w, &l[i], &q[i])).collect()))
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Cast { d, k, fw, tw, lanes, a, fty, tty } => {
                    let x = self.v(st, a);
                    let r = if *k == Cast::Bitcast {
                        let e = self.flatten(&x, *fty);
                        self.unflatten(e, *tty)
                    } else if *lanes == 0 {
                        self.cast1(*k, *fw, *tw, &x)
                    } else {
                        let l = Self::lanes(&x);
                        Val::A(Rc::new(l.iter().map(|v| self.cast1(*k, *fw, *tw, v)).collect()))
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Gep { d, base, off, idx } => {
                    let b = self.v(st, base);
                    let mut conc = *off;
                    let mut syms: Vec<E> = vec![];
                    for (o, w, sc) in idx {
                        match self.v(st, o) {
                            Val::C(c) => {
                                let i = if *w >= 64 { c as i64 } else { ((c << (64 - w)) as i64) >> (64 - w) };
                                conc = conc.wrapping_add(i.wrapping_mul(*sc));
                            }
                            Val::S(e) => {
                                let x = self.ex.sext(e, 64);
                                let k = self.ex.konst(64, *sc as u64 as u128);
                                syms.push(self.ex.bin(Bop::Mul, x, k));
                            }
                            Val::A(_) => return Err(End::Unsupported("gep vector index".into())),
                        }
                    }
                    let r = if syms.is_empty() {
                        match b {
                            Val::C(c) => Val::C(c.wrapping_add(conc as u64)),
                            Val::S(e) => {
                                let k = self.ex.konst(64, conc as u64 as u128);
                                let r = self.ex.bin(Bop::Add, e, k);
                                self.from_e(r)
                            }
                            _ => return Err(End::Unsupported("gep vector base".into())),
                        }
                    } else {
                        let mut acc = self.to_e(&b, 64);
                        for s in syms {
                            acc = self.ex.bin(Bop::Add, acc, s);
                        }
                        let k = self.ex.konst(64, conc as u64 as u128);
                        acc = self.ex.bin(Bop::Add, acc, k);
                        self.from_e(acc)
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Load { d, sh, p } => {
                    let pv = self.v(st, p);
                    if let (Val::S(e), Shape::S(bits)) = (&pv, sh) {
                        if let Some(v) = self.table_load(st, *e, *bits)? {
                            st.cur.regs[*d as usize] = v;
                            st.cur.ip += 1;
                            continue;
                        }
                    }
                    let a = self.addr(st, &pv)?;
                    let r = match sh {
                        Shape::S(bits) if *bits <= 128 => st.mem.load(&mut self.ex, a, *bits).map_err(memerr)?,
                        Shape::S(bits) => return Err(End::Unsupported(format!("load i{}", bits))),
                        Shape::T(t) => self.load_ty(st, a, *t)?,
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Store { sh, v, p } => {
                    let pv = self.v(st, p);
                    let a = self.addr(st, &pv)?;
                    let x = self.v(st, v);
                    match sh {
                        Shape::S(bits) if *bits <= 128 => st.mem.store(&mut self.ex, a, *bits, &x).map_err(memerr)?,
                        Shape::S(bits) => return Err(End::Unsupported(format!("store i{}", bits))),
                        Shape::T(t) => self.store_ty(st, a, *t, &x)?,
                    }
                }
                Inst::Alloca { d, size, n } => {
                    let k = match self.v(st, n) {
                        Val::C(c) => c,
                        _ => return Err(End::Unsupported("symbolic alloca".into())),
                    };
                    let a = st.mem.push_stack((*size * k) as usize);
                    st.cur.regs[*d as usize] = Val::C(a);
                }
                Inst::Select { d, c, a, b, ty, vec_cond } => {
                    let cv = self.v(st, c);
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    if *vec_cond {
                        let cl = Self::lanes(&cv);
                        let (xl, yl) = (Self::lanes(&x), Self::lanes(&y));
                        let et = match self.m.types.get(*ty) {
                            Ty::Vec(_, e) => *e,
                            _ => *ty,
                        };
                        let mut out = vec![];
                        for i in 0..cl.len() {
                            out.push(self.select1(st, &cl[i], &xl[i], &yl[i], et)?);
                        }
                        st.cur.regs[*d as usize] = Val::A(Rc::new(out));
                    } else {
                        let r = match &cv {
                            Val::C(1) => x,
                            Val::C(_) => y,
                            _ => self.select1(st, &cv, &x, &y, *ty)?,
                        };
                        st.cur.regs[*d as usize] = r;
                    }
                }
                Inst::Extract { d, a, path, .. } => {
                    let mut v = self.v(st, a);
                    for p in path {
                        v = Self::lanes(&v)[*p as usize].clone();
                    }
                    st.cur.regs[*d as usize] = v;
                }
                Inst::Insert { d, a, v, path, .. } => {
                    let agg = self.v(st, a);
                    let x = self.v(st, v);
                    st.cur.regs[*d as usize] = insert_path(&agg, path, x);
                }
                Inst::ExtElem { d, a, i, .. } => {
                    let l = Self::lanes(&self.v(st, a));
                    let i = match self.v(st, i) {
                        Val::C(c) => c as usize,
                        Val::S(e) => self.concretize(st, e)? as usize,
                        _ => 0,
                    };
                    st.cur.regs[*d as usize] = l[i].clone();
                }
                Inst::InsElem { d, a, v, i, .. } => {
                    let l = Self::lanes(&self.v(st, a));
                    let x = self.v(st, v);
                    let i = match self.v(st, i) {
                        Val::C(c) => c as usize,
                        Val::S(e) => self.concretize(st, e)? as usize,
                        _ => 0,
                    };
                    let mut o = (*l).clone();
                    o[i] = x;
                    st.cur.regs[*d as usize] = Val::A(Rc::new(o));
                }
                Inst::Shuffle { d, a, b, n, mask } => {
                    let (x, y) = (Self::lanes(&self.v(st, a)), Self::lanes(&self.v(st, b)));
                    let n = *n as i32;
                    let out = mask
                        .iter()
                        .map(|m| {
                            if *m < 0 {
                                x[0].clone()
                            } else if *m < n {
                                x[*m as usize].clone()
                            } else {
                                y[(*m - n) as usize].clone()
                            }
                        })
                        .collect();
                    st.cur.regs[*d as usize] = Val::A(Rc::new(out));
                }
                Inst::Freeze { d, a } => {
                    st.cur.regs[*d as usize] = self.v(st, a);
                }
                Inst::Rmw { d, op, w, p, v } => {
                    let pv = self.v(st, p);
                    let a = self.addr(st, &pv)?;
                    let old = st.mem.load(&mut self.ex, a, *w).map_err(memerr)?;
                    let x = self.v(st, v);
                    let new = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.bin1(Bop::Add, *w, &old, &x),
                        RmwOp::Sub => self.bin1(Bop::Sub, *w, &old, &x),
                        RmwOp::And => self.bin1(Bop::And, *w, &old, &x),
                        RmwOp::Or => self.bin1(Bop::Or, *w, &old, &x),
                        RmwOp::Xor => self.bin1(Bop::Xor, *w, &old, &x),
                        o => return Err(End::Unsupported(format!("atomicrmw {:?}", o))),
                    };
                    st.mem.store(&mut self.ex, a, *w, &new).map_err(memerr)?;
                    st.cur.regs[*d as usize] = old;
                }
                Inst::CmpXchg { d, w, p, c, n } => {
                    let pv = self.v(st, p);
                    let a = self.addr(st, &pv)?;
                    let old = st.mem.load(&mut self.ex, a, *w).map_err(memerr)?;
                    let cv = self.v(st, c);
                    let ok = self.icmp1(Pred::Eq, *w, &old, &cv);
                    let okc = match ok {
                        Val::C(c) => c == 1,
                        Val::S(e) => self.concretize(st, e)? == 1,
                        _ => false,
                    };
                    if okc {
                        let nv = self.v(st, n);
                        st.mem.store(&mut self.ex, a, *w, &nv).map_err(memerr)?;
                    }
                    st.cur.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::C(okc as u64)]));
                }
                Inst::Br { t } => {
                    let t = *t;
                    self.jump(st, code, t);
                    continue;
                }
                Inst::CBr { c, t, f } => {
                    let (t, f) = (*t, *f);
                    let cv = self.v(st, c);
                    self.stats[st.entry].branches += 1;
                    let taken = match cv {
                        Val::C(c) => c == 1,
                        Val::S(e) => {
                            let code2 = code.clone();
                            self.decide_jump(st, e, &code2, f)?
                        }
                        _ => return Err(End::Unsupported("vector branch".into())),
                    };
                    self.jump(st, code, if taken { t } else { f });
                    continue;
                }
                Inst::Switch { v, w, def, cases } => {
                    self.stats[st.entry].branches += 1;
                    match self.v(st, v) {
                        Val::C(c) => {
                            let t = cases.iter().find(|x| x.0 as u64 == c).map(|x| x.1).unwrap_or(*def);
                            self.jump(st, code, t);
                        }
                        Val::S(e) => {
                            // group cases by target
                            let mut targets: Vec<u32> = vec![];
                            for (_, t) in cases {
                                if *t != *def && !targets.contains(t) {
                                    targets.push(*t);
                                }
                            }
                            let mut done = false;
                            for t in targets {
                                let mut c = self.ex.fals();
                                for (k, tt) in cases {
                                    if *tt == t {
                                        let kk = self.ex.konst(*w, *k);
                                        let q = self.ex.cmp(Cmp::Eq, e, kk);
                                        c = self.ex.or(c, q);
                                    }
                                }
                                // other state re-executes this switch with the case excluded
                                if self.decide(st, c, &|_| {})? {
                                    self.jump(st, code, t);
                                    done = true;
                                    break;
                                }
                            }
                            if !done {
                                self.jump(st, code, *def);
                            }
                        }
                        _ => return Err(End::Unsupported("vector switch".into())),
                    }
                    continue;
                }
                Inst::Ret { v } => {
                    let r = v.as_ref().map(|v| self.v(st, v));
                    st.mem.stack.truncate(st.cur.stack_mark as usize);
                    match st.frames.pop() {
                        None => return Ok(false),
                        Some(fr) => {
                            st.cur = match Rc::try_unwrap(fr) {
                                Ok(f) => f,
                                Err(f) => (*f).clone(),
                            };
                            let code = st.cur.code.clone();
                            if let Inst::Call { d, .. } = &code.blocks[st.cur.block as usize].insts[st.cur.ip as usize] {
                                if let (Some(d), Some(r)) = (d, r) {
                                    st.cur.regs[*d as usize] = r;
                                }
                            }
                            st.cur.ip += 1;
                            return Ok(true);
                        }
                    }
                }
                Inst::Unreachable => return Err(End::Abort("reached unreachable code".into())),
                Inst::Nop => {}
                Inst::FBin { d, op, w, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    match (x, y) {
                        (Val::C(x), Val::C(y)) => {
                            st.cur.regs[*d as usize] = Val::C(fbin(op, *w, x, y));
                        }
                        _ => return Err(End::Unsupported("symbolic float".into())),
                    }
                }
                Inst::FCmp { d, pred, w, a, b } => {
                    let (x, y) = (self.v(st, a), self.v(st, b));
                    match (x, y) {
                        (Val::C(x), Val::C(y)) => {
                            st.cur.regs[*d as usize] = Val::C(fcmp(pred, *w, x, y) as u64);
                        }
                        _ => return Err(End::Unsupported("symbolic float".into())),
                    }
                }
                Inst::FCast { d, op, fw, tw, a } => match self.v(st, a) {
                    Val::C(x) => {
                        st.cur.regs[*d as usize] = Val::C(fcast(op, *fw, *tw, x));
                    }
                    _ => return Err(End::Unsupported("symbolic float".into())),
                },
                Inst::Call { d, rty, callee, args, name } => {
                    let fi = match callee {
                        Callee::Func(i) => *i,
                        Callee::Reg(r) => {
                            let v = st.cur.regs[*r as usize].clone();
                            let a = self.addr(st, &v)?;
                            let id = a >> 32;
                            if id < FUNC_BASE || a as u32 != 0 || (id - FUNC_BASE) as usize >= self.m.funcs.len() {
                                return Err(End::Mem(format!("call through bad pointer {:#x}", a)));
                            }
                            (id - FUNC_BASE) as u32
                        }
                        Callee::Asm(s) => {
                            let r = self.asm(st, s, *rty, args)?;
                            if let Some(d) = d {
                                st.cur.regs[*d as usize] = r;
                            }
                            st.cur.ip += 1;
                            continue;
                        }
                        Callee::Bad => return Err(End::Unsupported(format!("call to {}", name))),
                    };
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for (_, o) in args {
                        av.push(self.v(st, o));
                    }
                    let ic = self.ic[fi as usize];
                    if self.m.funcs[fi as usize].defined && ic == Ic::None {
                        let c2 = self.get_code(fi);
                        if self.fused.insert(fi) && self.trace {
                            eprintln!("enter {}", self.m.funcs[fi as usize].name);
                        }
                        let mut regs = vec![Val::C(0); c2.nregs];
                        for (i, v) in av.into_iter().enumerate() {
                            if i < c2.argregs.len() {
                                regs[c2.argregs[i] as usize] = v;
                            }
                        }
                        let nf = Frame {
                            f: fi,
                            code: c2,
                            block: 0,
                            ip: 0,
                            regs,
                            stack_mark: st.mem.stack.len() as u32,
                        };
                        if st.frames.len() > 20_000 {
                            return Err(End::Mem("stack overflow (20000 frames)".into()));
                        }
                        let old = std::mem::replace(&mut st.cur, nf);
                        st.frames.push(Rc::new(old));
                        return Ok(true);
                    }
                    let r = self.external(st, fi, ic, &av, *rty, args)?;
                    if let Some(d) = d {
                        st.cur.regs[*d as usize] = r;
                    }
                }
                Inst::Unsupported(s) => return Err(End::Unsupported(s.clone())),
            }
            st.cur.ip += 1;
        }
    }

    fn decide_jump(&mut self, st: &mut State, e: E, code: &Rc<Code>, f: u32) -> R<bool> {
        if let Some(c) = self.ex.cval(e) {
            return Ok(c == 1);
        }
        self.stats[st.entry].sym_branches += 1;
        let b = self.both(st, e)?;
        match (b.t, b.f) {
            (Some(t), Some(fm)) => {
                self.stats[st.entry].forks += 1;
                if self.trace_forks > 0 {
                    self.trace_forks -= 1;
                    eprintln!("FORK {} at {}", self.ex.show(e, 9), self.backtrace(st, 4).join(" < "));
                }
                let ne = self.ex.not(e);
                let mut other = st.clone();
                other.forks += 1;
                st.forks += 1;
                other.pc.add(&mut self.ex, ne, &fm);
                self.jump(&mut other, code, f);
                self.work.push(other);
                st.pc.add(&mut self.ex, e, &t);
                Ok(true)
            }
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (None, None) => Err(End::Infeasible),
        }
    }

    fn jump(&mut self, st: &mut State, code: &Rc<Code>, t: u32) {
        let from = st.cur.block;
        let blk = &code.blocks[t as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).unwrap().1;
                st.cur.regs[*d as usize] = self.v(st, o);
            } else {
                let mut vals = Vec::with_capacity(blk.phis.len());
                for (_, inc) in &blk.phis {
                    let o = &inc.iter().find(|x| x.0 == from).unwrap().1;
                    vals.push(self.v(st, o));
                }
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.block = t;
        st.cur.ip = 0;
    }

    fn select1(&mut self, st: &State, c: &Val, x: &Val, y: &Val, ty: TyId) -> R<Val> {
        match c {
            Val::C(1) => Ok(x.clone()),
            Val::C(_) => Ok(y.clone()),
            Val::S(ce) => {
                if let (Val::A(p), Val::A(q)) = (x, y) {
                    let mut out = vec![];
                    for i in 0..p.len() {
                        let et = match self.m.types.get(ty) {
                            Ty::Vec(_, e) | Ty::Arr(_, e) => *e,
                            Ty::Struct(es, _) => es[i],
                            _ => ty,
                        };
                        out.push(self.select1(st, c, &p[i], &q[i], et)?);
                    }
                    return Ok(Val::A(Rc::new(out)));
                }
                if let Some(v) = st.pc.implied(&mut self.ex, *ce) {
                    return Ok(if v { x.clone() } else { y.clone() });
                }
                let w = self.m.types.bits(ty) as u32;
                let (a, b) = (self.to_e(x, w), self.to_e(y, w));
                let e = self.ex.ite(*ce, a, b);
                Ok(self.from_e(e))
            }
            _ => Err(End::Unsupported("select".into())),
        }
    }

    fn asm(&mut self, _st: &mut State, s: &str, rty: TyId, args: &[(TyId, Opnd)]) -> R<Val> {
        if s.contains("cpuid") || s.contains("xgetbv") {
            return Ok(self.zero(rty));
        }
        if s.is_empty() || s.starts_with('#') {
            // compiler barrier / black_box
            if let Some((_, o)) = args.first() {
                return Ok(self.v(_st, o));
            }
            return Ok(self.zero(rty));
        }
        Err(End::Unsupported(format!("asm {}", s)))
    }

    // ---- idealised primitives ----------------------------------------
    fn uf(&mut self, st: &mut State, f: u8, ins: Vec<E>, n: usize, w: u32, nm: &str) -> Rc<Vec<E>> {
        let ins = Rc::new(ins);
        if let Some(a) = st.apps.iter().find(|a| a.f == f && a.ins == ins) {
            return a.outs.clone();
        }
        let key = (f, ins.clone());
        let (ins, outs) = match self.uf_cache.get_key_value(&key) {
            Some((k, o)) => (k.1.clone(), o.clone()),
            None => {
                let mut o = vec![];
                for i in 0..n {
                    o.push(self.ex.var(&format!("{}_{}", nm, i), w, true));
                }
                let o = Rc::new(o);
                self.uf_cache.insert(key, o.clone());
                for e in o.iter() {
                    if let K::Var(v) = self.ex.k(*e) {
                        self.var_app.insert(v, (f, ins.clone()));
                    }
                }
                (ins, o)
            }
        };
        for e in outs.iter() {
            if let K::Var(v) = self.ex.k(*e) {
                st.pc.seed(v, w, scramble(v) & mask(w));
            }
        }
        Rc::make_mut(&mut st.apps).push(App { f, ins, outs: outs.clone() });
        outs
    }

    /// SHA-256 compression: (8 words state, 16 words block) -> 8 words
    pub fn sha_block(&mut self, st: &mut State, state: &[Val], block: &[Val]) -> Vec<Val> {
        if state.iter().chain(block.iter()).all(|v| matches!(v, Val::C(_))) {
            let g = |v: &Val| match v {
                Val::C(c) => *c as u32,
                _ => 0,
            };
            let mut h = [0u32; 8];
            let mut b = [0u32; 16];
            for i in 0..8 {
                h[i] = g(&state[i]);
            }
            for i in 0..16 {
                b[i] = g(&block[i]);
            }
            let ins: Vec<E> = state.iter().chain(block.iter()).map(|v| self.to_e(v, 32)).collect();
            crate::crypto::sha256_compress(&mut h, &b);
            let outs: Vec<E> = h.iter().map(|x| self.ex.konst(32, *x as u128)).collect();
            if st.apps.len() < 4096 && !st.apps.iter().any(|a| a.f == F_SHA && *a.ins == ins) {
                Rc::make_mut(&mut st.apps).push(App { f: F_SHA, ins: Rc::new(ins), outs: Rc::new(outs) });
            }
            return h.iter().map(|x| Val::C(*x as u64)).collect();
        }
        let ins: Vec<E> = state.iter().chain(block.iter()).map(|v| self.to_e(v, 32)).collect();
        let outs = self.uf(st, F_SHA, ins, 8, 32, "sha");
        outs.iter().map(|e| self.from_e(*e)).collect()
    }
    fn sha_bytes(&mut self, st: &mut State, data: &[Val]) -> Vec<Val> {
        let mut m: Vec<Val> = data.to_vec();
        let bits = (data.len() as u64) * 8;
        m.push(Val::C(0x80));
        while m.len() % 64 != 56 {
            m.push(Val::C(0));
        }
        for b in bits.to_be_bytes() {
            m.push(Val::C(b as u64));
        }
        let mut h: Vec<Val> = crate::crypto::SHA_IV.iter().map(|x| Val::C(*x as u64)).collect();
        for blk in m.chunks(64) {
            let mut ws = vec![];
            for w in blk.chunks(4) {
                ws.push(self.be32(w));
            }
            h = self.sha_block(st, &h, &ws);
        }
        let mut out = vec![];
        for w in h {
            let e = self.to_e(&w, 32);
            for i in (0..4).rev() {
                let b = self.ex.extract(e, i * 8, 8);
                out.push(self.from_e(b));
            }
        }
        out
    }
    fn be32(&mut self, b: &[Val]) -> Val {
        let mut acc = self.to_e(&b[0], 8);
        for x in &b[1..] {
            let y = self.to_e(x, 8);
            acc = self.ex.concat(acc, y);
        }
        self.from_e(acc)
    }
    /// One AES-256 block, either direction. `key` 32 bytes, `b` 16 bytes.
    fn aes_block(&mut self, st: &mut State, key: &[Val], b: &[Val], enc: bool) -> Vec<Val> {
        let conc = |v: &[Val]| -> Option<Vec<u8>> {
            v.iter()
                .map(|x| match x {
                    Val::C(c) => Some(*c as u8),
                    _ => None,
                })
                .collect()
        };
        if let (Some(k), Some(x)) = (conc(key), conc(b)) {
            let o = crate::crypto::aes256(&k, &x, enc);
            return o.iter().map(|x| Val::C(*x as u64)).collect();
        }
        let ke: Vec<E> = key.iter().map(|v| self.to_e(v, 8)).collect();
        let be: Vec<E> = b.iter().map(|v| self.to_e(v, 8)).collect();
        if !enc {
            // structural inverse
            if let Some(a) = st.apps.iter().find(|a| a.f == F_AES && a.ins[..32] == ke[..] && *a.outs == be) {
                let p: Vec<E> = a.ins[32..].to_vec();
                return p.iter().map(|e| self.from_e(*e)).collect();
            }
            // fresh preimage p with E(k, p) = b; register the application
            let mut p = vec![];
            for i in 0..16 {
                p.push(self.ex.var(&format!("aesd_{}", i), 8, true));
            }
            let mut ins = ke.clone();
            ins.extend(p.iter());
            let ins = Rc::new(ins);
            for e in p.iter() {
                if let K::Var(v) = self.ex.k(*e) {
                    self.var_app.insert(v, (F_AES, ins.clone()));
                    st.pc.seed(v, 8, scramble(v) & 0xff);
                }
            }
            Rc::make_mut(&mut st.apps).push(App { f: F_AES, ins, outs: Rc::new(be) });
            return p.iter().map(|e| self.from_e(*e)).collect();
        }
        let mut ins = ke;
        ins.extend(be);
        let outs = self.uf(st, F_AES, ins, 16, 8, "aes");
        outs.iter().map(|e| self.from_e(*e)).collect()
    }

    // ---- externals ----------------------------------------------------
    fn cint(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            _ => Err(End::Unsupported("aggregate argument".into())),
        }
    }
    fn cstr(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = self.cint(st, p)?;
        let n = self.cint(st, n)? as usize;
        let b = st.mem.concrete(a, n).map_err(memerr)?.unwrap_or_default();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn mcopy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.cint(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        let s = self.cint(st, s)?;
        let d = self.cint(st, d)?;
        st.mem.copy(d, s, n).map_err(memerr)
    }
    fn do_alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > st.alloc_limit || st.mem.heap_bytes + n > (1 << 30) {
            return Err(End::Limit(format!("allocation of {} bytes", n)));
        }
        Ok(st.mem.alloc(n as usize))
    }

    fn location(&mut self, st: &State, p: &Val) -> String {
        if let Val::C(a) = p {
            let g = |x: &mut Self, o: u64, w: u32| match st.mem.load(&mut x.ex, a + o, w) {
                Ok(Val::C(c)) => Some(c),
                _ => None,
            };
            if let (Some(fp), Some(fl), Some(l), Some(c)) = (g(self, 0, 64), g(self, 8, 64), g(self, 16, 32), g(self, 20, 32)) {
                if fl < 400 {
                    // the length may include a trailing nul in recent layouts
                    if let Ok(Some(b)) = st.mem.concrete(fp, fl as usize) {
                        return format!("{}:{}:{}", String::from_utf8_lossy(&b).trim_end_matches('\0'), l, c);
                    }
                }
            }
        }
        "unknown location".into()
    }

    /// How a caller chain looks, innermost first.
    pub fn backtrace(&self, st: &State, n: usize) -> Vec<String> {
        let mut v = vec![demangle(&self.m.funcs[st.cur.f as usize].name)];
        for f in st.frames.iter().rev().take(n) {
            v.push(demangle(&self.m.funcs[f.f as usize].name));
        }
        v
    }

    fn external(&mut self, st: &mut State, fi: u32, ic: Ic, a: &[Val], rty: TyId, args: &[(TyId, Opnd)]) -> R<Val> {
        match ic {
            Ic::HashOne => return Ok(Val::C(0)),
            Ic::Nop => return Ok(self.zero(rty)),
            Ic::PanicFmt => {
                let loc = a.last().cloned().unwrap_or(Val::C(0));
                let l = self.location(st, &loc);
                return Err(End::Panic(l));
            }
            Ic::Sha => {
                let sp = self.cint(st, &a[0])?;
                let bp = self.cint(st, &a[1])?;
                let mut state = vec![];
                let mut block = vec![];
                for i in 0..8 {
                    state.push(st.mem.load(&mut self.ex, sp + i * 4, 32).map_err(memerr)?);
                }
                for i in 0..16 {
                    block.push(st.mem.load(&mut self.ex, bp + i * 4, 32).map_err(memerr)?);
                }
                let o = self.sha_block(st, &state, &block);
                for i in 0..8 {
                    st.mem.store(&mut self.ex, sp + i * 4, 32, &o[i as usize]).map_err(memerr)?;
                }
                return Ok(Val::C(0));
            }
            Ic::AesKey => {
                // (result, key, length): the key itself stands for its schedule
                let (r, k, n) = (self.cint(st, &a[0])?, self.cint(st, &a[1])?, self.cint(st, &a[2])?);
                if n != 32 {
                    return Err(End::Unsupported("AES key size".into()));
                }
                st.mem.fill(r, 240, 0).map_err(memerr)?;
                st.mem.copy(r, k, 32).map_err(memerr)?;
                return Ok(Val::C(0));
            }
            k @ (Ic::AesEnc | Ic::AesDec) => {
                let (key, i, o) = (self.cint(st, &a[0])?, self.cint(st, &a[1])?, self.cint(st, &a[3])?);
                if self.cint(st, &a[2])? < 16 || self.cint(st, &a[4])? < 16 {
                    return Err(End::Unsupported("AES block size".into()));
                }
                let key = st.mem.bytes(key, 32).map_err(memerr)?;
                let b = st.mem.bytes(i, 16).map_err(memerr)?;
                let r = self.aes_block(st, &key, &b, k == Ic::AesEnc);
                for (j, v) in r.iter().enumerate() {
                    st.mem.set_byte(&self.ex, o + j as u64, v).map_err(memerr)?;
                }
                return Ok(Val::C(0));
            }
            Ic::None => {}
        }
        let name = self.m.funcs[fi as usize].name.clone();
        if let Some(rest) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, rest, a, rty, args);
        }
        if let Some(rest) = name.strip_prefix("sym_") {
            return self.api(st, rest, a);
        }
        match name.as_str() {
            "memcpy" | "memmove" => {
                self.mcopy(st, &a[0], &a[1], &a[2])?;
                Ok(a[0].clone())
            }
            "memcmp" | "bcmp" => {
                let n = self.cint(st, &a[2])? as usize;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.cint(st, &a[0])?;
                let q = self.cint(st, &a[1])?;
                let x = st.mem.bytes(p, n).map_err(memerr)?;
                let y = st.mem.bytes(q, n).map_err(memerr)?;
                let mut acc = self.ex.konst(32, 0);
                let is_b = name == "bcmp";
                let one = self.ex.konst(32, 1);
                if is_b {
                    let mut eq = self.ex.tru();
                    for i in 0..n {
                        let (xe, ye) = (self.to_e(&x[i], 8), self.to_e(&y[i], 8));
                        let c = self.ex.cmp(Cmp::Eq, xe, ye);
                        eq = self.ex.and(eq, c);
                        if self.ex.cval(eq) == Some(0) {
                            break;
                        }
                    }
                    acc = self.ex.ite(eq, acc, one);
                } else {
                    let m1 = self.ex.konst(32, 0xffff_ffff);
                    for i in (0..n).rev() {
                        let (xe, ye) = (self.to_e(&x[i], 8), self.to_e(&y[i], 8));
                        let eq = self.ex.cmp(Cmp::Eq, xe, ye);
                        let lt = self.ex.cmp(Cmp::Ult, xe, ye);
                        let d = self.ex.ite(lt, m1, one);
                        acc = self.ex.ite(eq, acc, d);
                    }
                }
                Ok(self.from_e(acc))
            }
            "strlen" => {
                let p = self.cint(st, &a[0])?;
                Ok(Val::C(st.mem.strlen(p).map_err(memerr)? as u64))
            }
            "malloc" => {
                let n = self.cint(st, &a[0])?;
                Ok(Val::C(self.do_alloc(st, n)?))
            }
            "calloc" => {
                let n = self.cint(st, &a[0])?;
                let k = self.cint(st, &a[1])?;
                let n = n.saturating_mul(k);
                // Zeroed memory takes none before it is written; offsets have 32 bits.
                if n >= crate::mem::HUGE as u64 && n <= u32::MAX as u64 {
                    return Ok(Val::C(st.mem.alloc(n as usize)));
                }
                Ok(Val::C(self.do_alloc(st, n)?))
            }
            "posix_memalign" => {
                let n = self.cint(st, &a[2])?;
                let p = self.do_alloc(st, n)?;
                let d = self.cint(st, &a[0])?;
                st.mem.store(&mut self.ex, d, 64, &Val::C(p)).map_err(memerr)?;
                Ok(Val::C(0))
            }
            "realloc" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                let q = self.do_alloc(st, n)?;
                if p != 0 {
                    let old = st.mem.obj(p).map_err(memerr)?.data.len();
                    st.mem.copy(q, p, old.min(n as usize)).map_err(memerr)?;
                    st.mem.free(p).map_err(memerr)?;
                }
                Ok(Val::C(q))
            }
            "free" => {
                let p = self.cint(st, &a[0])?;
                if p != 0 {
                    st.mem.free(p).map_err(memerr)?;
                }
                Ok(Val::C(0))
            }
            "abort" | "_exit" | "exit" => Err(End::Abort(name)),
            "mlock" | "munlock" | "madvise" | "pthread_mutex_lock" | "pthread_mutex_unlock"
            | "__cxa_thread_atexit_impl" | "sched_yield" | "close" | "munmap" => Ok(Val::C(0)),
            "getenv" => Ok(Val::C(0)),
            "__errno_location" => Ok(Val::C(st.tls_errno)),
            "write" => {
                let n = self.cint(st, &a[2])?;
                Ok(Val::C(n))
            }
            "writev" => Ok(Val::C(1)),
            "clock_gettime" => {
                let p = self.cint(st, &a[1])?;
                st.clock += 1;
                st.mem.store(&mut self.ex, p, 64, &Val::C(st.clock)).map_err(memerr)?;
                st.mem.store(&mut self.ex, p + 8, 64, &Val::C(0)).map_err(memerr)?;
                Ok(Val::C(0))
            }
            "getrandom" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                self.random(st, p, n)?;
                Ok(Val::C(n))
            }
            "syscall" => {
                let nr = self.cint(st, &a[0])?;
                match nr {
                    318 => {
                        let p = self.cint(st, &a[1])?;
                        let n = self.cint(st, &a[2])?;
                        if n > 0 {
                            self.random(st, p, n)?;
                        }
                        Ok(Val::C(n))
                    }
                    186 => Ok(Val::C(1)),
                    _ => Err(End::Unsupported(format!("syscall {}", nr))),
                }
            }
            "dlsym" => {
                let p = self.cint(st, &a[1])?;
                let mut s = String::new();
                for i in 0..40 {
                    match st.mem.load(&mut self.ex, p + i, 8) {
                        Ok(Val::C(c)) if c != 0 => s.push(c as u8 as char),
                        _ => break,
                    }
                }
                if s == "getrandom" {
                    if let Some(i) = self.m.funcs.iter().position(|f| f.name == "getrandom") {
                        return Ok(Val::C((0x3000_0000 + i as u64) << 32));
                    }
                }
                Ok(Val::C(0))
            }
            "gettid" => Ok(Val::C(1)),
            "rust_crypto_util_supports_aesni" => Ok(Val::C(st.aesni)),
            "rust_crypto_aesni_setup_working_key_256" => {
                let k = self.cint(st, &a[0])?;
                let r = self.cint(st, &a[1])?;
                st.mem.copy(r, k, 32).map_err(memerr)?;
                st.mem.fill(r + 32, 208, 0).map_err(memerr)?;
                Ok(Val::C(0))
            }
            "rust_crypto_aesni_aesimc" => Ok(Val::C(0)),
            "rust_crypto_aesni_encrypt_block" | "rust_crypto_aesni_decrypt_block" => {
                let enc = name.contains("encrypt");
                if self.cint(st, &a[0])? != 14 {
                    return Err(End::Unsupported("AES rounds".into()));
                }
                let i = self.cint(st, &a[1])?;
                let mut k = self.cint(st, &a[2])?;
                let o = self.cint(st, &a[3])?;
                if !enc {
                    k -= 14 * 16;
                }
                let key = st.mem.bytes(k, 32).map_err(memerr)?;
                let b = st.mem.bytes(i, 16).map_err(memerr)?;
                let r = self.aes_block(st, &key, &b, enc);
                for (j, v) in r.iter().enumerate() {
                    st.mem.set_byte(&self.ex, o + j as u64, v).map_err(memerr)?;
                }
                Ok(Val::C(0))
            }
            "rust_crypto_util_fixed_time_eq_asm" => {
                let p = self.cint(st, &a[0])?;
                let q = self.cint(st, &a[1])?;
                let n = self.cint(st, &a[2])? as usize;
                let x = st.mem.bytes(p, n).map_err(memerr)?;
                let y = st.mem.bytes(q, n).map_err(memerr)?;
                let mut acc = self.ex.konst(32, 0);
                for i in 0..n {
                    let (xe, ye) = (self.to_e(&x[i], 8), self.to_e(&y[i], 8));
                    let d = self.ex.bin(Bop::Xor, xe, ye);
                    let d = self.ex.zext(d, 32);
                    acc = self.ex.bin(Bop::Or, acc, d);
                }
                Ok(self.from_e(acc))
            }
            "rust_crypto_util_secure_memset" => {
                let p = self.cint(st, &a[0])?;
                let v = self.cint(st, &a[1])?;
                let n = self.cint(st, &a[2])?;
                st.mem.fill(p, n as usize, v as u8).map_err(memerr)?;
                Ok(Val::C(0))
            }
            _ => Err(End::Unsupported(format!("external {}", name))),
        }
    }

    fn random(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        if st.rng_mode == 1 && n > 0 {
            let mut v = vec![];
            for i in 0..n {
                let e = self.input_var(st, "rnd", i);
                v.push(e);
                st.mem.set_byte(&self.ex, p + i, &Val::S(e)).map_err(memerr)?;
                Rc::make_mut(&mut st.drawn).push(Val::S(e));
            }
            st.recs.push(Rec::Bytes("rnd".into(), Rc::new(v)));
            return Ok(());
        }
        for i in 0..n {
            st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let v = Val::C((st.rng >> 56) & 0xff);
            Rc::make_mut(&mut st.drawn).push(v.clone());
            st.mem.set_byte(&self.ex, p + i, &v).map_err(memerr)?;
        }
        Ok(())
    }

    fn truth(&mut self, v: &Val) -> E {
        match v {
            Val::S(e) => {
                let w = self.ex.w(*e);
                if w == 1 {
                    return *e;
                }
                let z = self.ex.konst(w, 0);
                let q = self.ex.cmp(Cmp::Eq, *e, z);
                self.ex.not(q)
            }
            _ => {
                let c = matches!(v, Val::C(c) if *c & 0xff != 0);
                self.ex.konst(1, c as u128)
            }
        }
    }

    /// The harness interface.
    fn api(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
        match name {
            // sym_bytes(ptr, len, name, namelen)
            "bytes" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                let nm = self.cstr(st, &a[2], &a[3])?;
                let mut v = vec![];
                for i in 0..n {
                    // the k-th input byte of an entry is one variable on all paths
                    let e = self.input_var(st, &nm, i);
                    v.push(e);
                    st.mem.set_byte(&self.ex, p + i, &Val::S(e)).map_err(memerr)?;
                }
                st.recs.push(Rec::Bytes(nm, Rc::new(v)));
                Ok(Val::C(0))
            }
            // sym_choose(n, name, namelen) -> 0..n
            "choose" => {
                let n = self.cint(st, &a[0])? as u32;
                let nm = self.cstr(st, &a[1], &a[2])?;
                if n == 0 {
                    return Err(End::Infeasible);
                }
                // fork eagerly; the destination register is written by hand
                let d = match &st.cur.code.blocks[st.cur.block as usize].insts[st.cur.ip as usize] {
                    Inst::Call { d, .. } => *d,
                    _ => None,
                };
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    self.stats[st.entry].forks += 1;
                    o.recs.push(Rec::Choice(nm.clone(), n, k));
                    if let Some(d) = d {
                        o.cur.regs[d as usize] = Val::C(k as u64);
                    }
                    o.cur.ip += 1;
                    self.work.push(o);
                }
                st.recs.push(Rec::Choice(nm, n, 0));
                Ok(Val::C(0))
            }
            "assume" => {
                let e = self.truth(&a[0]);
                if let Some(c) = self.ex.cval(e) {
                    return if c == 1 { Ok(Val::C(0)) } else { Err(End::Infeasible) };
                }
                let b = self.both(st, e)?;
                match b.t {
                    Some(m) => {
                        st.pc.add(&mut self.ex, e, &m);
                        Ok(Val::C(0))
                    }
                    None => Err(End::Infeasible),
                }
            }
            // sym_assert(cond, msg, len)
            "assert" => {
                let e = self.truth(&a[0]);
                let msg = self.cstr(st, &a[1], &a[2])?;
                st.asserts += 1;
                self.stats[st.entry].asserts += 1;
                let ent = self.asserted.entry(msg.clone()).or_insert((0, 0));
                ent.0 += 1;
                if let Some(c) = self.ex.cval(e) {
                    return if c == 1 { Ok(Val::C(0)) } else { Err(End::Assert(msg)) };
                }
                ent.1 += 1;
                self.stats[st.entry].assert_sym += 1;
                let b = self.both(st, e)?;
                match b.f {
                    None => Ok(Val::C(0)),
                    Some(m) => {
                        let ne = self.ex.not(e);
                        st.pc.add(&mut self.ex, ne, &m);
                        Err(End::Assert(msg))
                    }
                }
            }
            "observe" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])? as usize;
                let v = st.mem.bytes(p, n).map_err(memerr)?;
                st.obs.push(Rc::new(v));
                Ok(Val::C(0))
            }
            "reach" => {
                let id = self.cint(st, &a[0])? as u32;
                st.reached.push(id);
                Ok(Val::C(0))
            }
            "tier" => Ok(Val::C(self.tier as u64)),
            "panic_ok" => {
                st.panic_ok = self.cint(st, &a[0])? != 0;
                Ok(Val::C(0))
            }
            "rng_mode" => {
                st.rng_mode = self.cint(st, &a[0])? as u32;
                Ok(Val::C(0))
            }
            "aesni" => {
                st.aesni = self.cint(st, &a[0])?;
                Ok(Val::C(0))
            }
            "limits" => {
                st.limit = st.instrs + self.cint(st, &a[0])?;
                st.alloc_limit = self.cint(st, &a[1])?;
                Ok(Val::C(0))
            }
            "random" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])?;
                self.random(st, p, n)?;
                Ok(Val::C(0))
            }
            // reference primitives
            "sha256" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])? as usize;
                let o = self.cint(st, &a[2])?;
                let d = st.mem.bytes(p, n).map_err(memerr)?;
                let h = self.sha_bytes(st, &d);
                for (j, v) in h.iter().enumerate() {
                    st.mem.set_byte(&self.ex, o + j as u64, v).map_err(memerr)?;
                }
                Ok(Val::C(0))
            }
            // sym_aes(key32, in16, out16, enc)
            "aes" => {
                let k = self.cint(st, &a[0])?;
                let i = self.cint(st, &a[1])?;
                let o = self.cint(st, &a[2])?;
                let enc = self.cint(st, &a[3])? != 0;
                let key = st.mem.bytes(k, 32).map_err(memerr)?;
                let b = st.mem.bytes(i, 16).map_err(memerr)?;
                let r = self.aes_block(st, &key, &b, enc);
                for (j, v) in r.iter().enumerate() {
                    st.mem.set_byte(&self.ex, o + j as u64, v).map_err(memerr)?;
                }
                Ok(Val::C(0))
            }
            "record" => {
                st.drawn = Rc::new(vec![]);
                Ok(Val::C(0))
            }
            // sym_recorded(p, cap): what was drawn, and how much
            "recorded" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])? as usize;
                let d = st.drawn.clone();
                for (j, v) in d.iter().take(n).enumerate() {
                    st.mem.set_byte(&self.ex, p + j as u64, v).map_err(memerr)?;
                }
                Ok(Val::C(d.len() as u64))
            }
            // does any byte in the range depend on symbolic input?
            "is_symbolic" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])? as usize;
                let v = st.mem.bytes(p, n).map_err(memerr)?;
                Ok(Val::C(v.iter().any(|x| matches!(x, Val::S(_))) as u64))
            }
            "debug" => {
                let p = self.cint(st, &a[0])?;
                let n = self.cint(st, &a[1])? as usize;
                let v = st.mem.bytes(p, n).map_err(memerr)?;
                let s: Vec<String> = v
                    .iter()
                    .map(|x| match x {
                        Val::C(c) => {
                            if (32..127).contains(c) {
                                (*c as u8 as char).to_string()
                            } else {
                                format!("\\x{:02x}", c)
                            }
                        }
                        Val::S(e) => format!("<{}>", self.ex.show(*e, 4)),
                        _ => "?".into(),
                    })
                    .collect();
                eprintln!("DEBUG {}", s.join(""));
                Ok(Val::C(0))
            }
            _ => Err(End::Unsupported(format!("sym_{}", name))),
        }
    }

    fn input_var(&mut self, st: &State, nm: &str, i: u64) -> E {
        // occurrence number of this name on the path
        let occ = st.recs.iter().filter(|r| matches!(r, Rec::Bytes(n, _) if n == nm)).count();
        let full = format!("{}#{}[{}]@{}", nm, occ, i, st.entry);
        self.ex.input_var(&full, 8)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], rty: TyId, args: &[(TyId, Opnd)]) -> R<Val> {
        if name.starts_with("memcpy.") || name.starts_with("memmove.") {
            self.mcopy(st, &a[0], &a[1], &a[2])?;
            return Ok(Val::C(0));
        }
        if name.starts_with("memset.") {
            let n = self.cint(st, &a[2])? as usize;
            if n == 0 {
                return Ok(Val::C(0));
            }
            let p = self.cint(st, &a[0])?;
            match &a[1] {
                Val::C(c) => st.mem.fill(p, n, *c as u8).map_err(memerr)?,
                v => {
                    for i in 0..n {
                        st.mem.set_byte(&self.ex, p + i as u64, v).map_err(memerr)?;
                    }
                }
            }
            return Ok(Val::C(0));
        }
        if name.starts_with("threadlocal.address") {
            return Ok(a[0].clone());
        }
        if name.starts_with("expect") {
            return Ok(a[0].clone());
        }
        if name.starts_with("is.constant") {
            return Ok(Val::C(0));
        }
        if name == "trap" || name.starts_with("ubsantrap") {
            return Err(End::Abort("trap".into()));
        }
        if name.starts_with("x86.xgetbv") {
            return Ok(Val::C(0));
        }
        // vectors: lane by lane
        if let (Ty::Vec(n, e), false) = (self.m.types.get(rty).clone(), name.starts_with("x86.")) {
            let at: Vec<(TyId, Opnd)> = args
                .iter()
                .map(|(t, o)| match self.m.types.get(*t) {
                    Ty::Vec(_, e) => (*e, o.clone()),
                    _ => (*t, o.clone()),
                })
                .collect();
            let mut out = vec![];
            for i in 0..n as usize {
                let av: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(l) => l[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                out.push(self.intrinsic(st, name, &av, e, &at)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let base = name.split('.').next().unwrap_or("");
        let w = match args.first() {
            Some((t, _)) => self.m.types.bits(*t) as u32,
            None => 0,
        };
        let e = |x: &mut Self, i: usize| x.to_e(&a[i], w);
        match base {
            "bswap" => {
                let x = e(self, 0);
                let mut acc = self.ex.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ex.extract(x, i * 8, 8);
                    acc = self.ex.concat(acc, b);
                }
                Ok(self.from_e(acc))
            }
            "bitreverse" => {
                let x = e(self, 0);
                let mut acc = self.ex.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.ex.extract(x, i, 1);
                    acc = self.ex.concat(acc, b);
                }
                Ok(self.from_e(acc))
            }
            "ctpop" => {
                if let (Val::C(c), true) = (&a[0], w <= 64) {
                    return Ok(Val::C(c.count_ones() as u64));
                }
                let x = e(self, 0);
                let mut acc = self.ex.konst(w, 0);
                for i in 0..w {
                    let b = self.ex.extract(x, i, 1);
                    let b = self.ex.zext(b, w);
                    acc = self.ex.bin(Bop::Add, acc, b);
                }
                Ok(self.from_e(acc))
            }
            "ctlz" | "cttz" => {
                if let (Val::C(c), true) = (&a[0], w <= 64) {
                    let r = if *c == 0 {
                        w
                    } else if base == "ctlz" {
                        c.leading_zeros() - (64 - w)
                    } else {
                        c.trailing_zeros()
                    };
                    return Ok(Val::C(r as u64));
                }
                let x = e(self, 0);
                let mut acc = self.ex.konst(w, w as u128);
                for i in 0..w {
                    // for ctlz the highest set bit wins: go upwards; for cttz downwards
                    let pos = if base == "ctlz" { i } else { w - 1 - i };
                    let b = self.ex.extract(x, pos, 1);
                    let v = if base == "ctlz" { w - 1 - pos } else { pos };
                    let k = self.ex.konst(w, v as u128);
                    acc = self.ex.ite(b, k, acc);
                }
                Ok(self.from_e(acc))
            }
            "fshl" | "fshr" => {
                let (x, y, z) = (e(self, 0), e(self, 1), e(self, 2));
                match self.ex.cval(z) {
                    Some(s) => {
                        let s = (s % w as u128) as u32;
                        let s = if base == "fshl" { s } else { (w - s) % w };
                        let r = if s == 0 {
                            if base == "fshl" {
                                x
                            } else {
                                y
                            }
                        } else {
                            // high w bits of (x:y) << s
                            let hi = self.ex.extract(x, 0, w - s);
                            let lo = self.ex.extract(y, w - s, s);
                            self.ex.concat(hi, lo)
                        };
                        Ok(self.from_e(r))
                    }
                    None => {
                        let c = self.concretize(st, z)?;
                        let _ = c;
                        let av = vec![a[0].clone(), a[1].clone(), Val::C(c)];
                        self.intrinsic(st, name, &av, rty, args)
                    }
                }
            }
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = (e(self, 0), e(self, 1));
                let c = match base {
                    "umin" => self.ex.cmp(Cmp::Ult, x, y),
                    "umax" => self.ex.cmp(Cmp::Ult, y, x),
                    "smin" => self.ex.cmp(Cmp::Slt, x, y),
                    _ => self.ex.cmp(Cmp::Slt, y, x),
                };
                let r = self.ex.ite(c, x, y);
                Ok(self.from_e(r))
            }
            "abs" => {
                let x = e(self, 0);
                let z = self.ex.konst(w, 0);
                let c = self.ex.cmp(Cmp::Slt, x, z);
                let n = self.ex.bin(Bop::Sub, z, x);
                let r = self.ex.ite(c, n, x);
                Ok(self.from_e(r))
            }
            "usub" if name.starts_with("usub.sat") => {
                let (x, y) = (e(self, 0), e(self, 1));
                let c = self.ex.cmp(Cmp::Ult, x, y);
                let z = self.ex.konst(w, 0);
                let d = self.ex.bin(Bop::Sub, x, y);
                let r = self.ex.ite(c, z, d);
                Ok(self.from_e(r))
            }
            "uadd" if name.starts_with("uadd.sat") => {
                let (x, y) = (e(self, 0), e(self, 1));
                let s = self.ex.bin(Bop::Add, x, y);
                let c = self.ex.cmp(Cmp::Ult, s, x);
                let o = self.ex.konst(w, mask(w));
                let r = self.ex.ite(c, o, s);
                Ok(self.from_e(r))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if name.contains("with.overflow") => {
                let (x, y) = (e(self, 0), e(self, 1));
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    _ => Bop::Mul,
                };
                let r = self.ex.bin(op, x, y);
                let w2 = if op == Bop::Mul { w * 2 } else { w + 1 };
                if w2 > 128 {
                    return Err(End::Unsupported(name.to_string()));
                }
                let (x2, y2) = if signed {
                    (self.ex.sext(x, w2), self.ex.sext(y, w2))
                } else {
                    (self.ex.zext(x, w2), self.ex.zext(y, w2))
                };
                let full = self.ex.bin(op, x2, y2);
                let back = if signed { self.ex.sext(r, w2) } else { self.ex.zext(r, w2) };
                let eq = self.ex.cmp(Cmp::Eq, full, back);
                let ov = self.ex.not(eq);
                Ok(Val::A(Rc::new(vec![self.from_e(r), self.from_e(ov)])))
            }
            "scmp" | "ucmp" => {
                let (x, y) = (e(self, 0), e(self, 1));
                let rw = self.m.types.bits(rty) as u32;
                let c = if base == "scmp" { Cmp::Slt } else { Cmp::Ult };
                let lt = self.ex.cmp(c, x, y);
                let eq = self.ex.cmp(Cmp::Eq, x, y);
                let (m1, z, o) = (self.ex.konst(rw, mask(rw)), self.ex.konst(rw, 0), self.ex.konst(rw, 1));
                let t = self.ex.ite(eq, z, o);
                let r = self.ex.ite(lt, m1, t);
                Ok(self.from_e(r))
            }
            "vector" => {
                // vector.reduce.<op>
                let op = name.split('.').nth(2).unwrap_or("");
                let l = Self::lanes(&a[0]);
                let ew = self.m.types.bits(rty) as u32;
                let mut acc = self.to_e(&l[0], ew);
                for v in &l[1..] {
                    let y = self.to_e(v, ew);
                    acc = match op {
                        "add" => self.ex.bin(Bop::Add, acc, y),
                        "or" => self.ex.bin(Bop::Or, acc, y),
                        "and" => self.ex.bin(Bop::And, acc, y),
                        "xor" => self.ex.bin(Bop::Xor, acc, y),
                        "umax" => {
                            let c = self.ex.cmp(Cmp::Ult, acc, y);
                            self.ex.ite(c, y, acc)
                        }
                        "umin" => {
                            let c = self.ex.cmp(Cmp::Ult, acc, y);
                            self.ex.ite(c, acc, y)
                        }
                        _ => return Err(End::Unsupported(name.to_string())),
                    };
                }
                Ok(self.from_e(acc))
            }
            "x86" => match name {
                "x86.sse2.psad.bw" => {
                    let (p, q) = (Self::lanes(&a[0]), Self::lanes(&a[1]));
                    let mut out = vec![];
                    for h in 0..2 {
                        let mut acc = self.ex.konst(64, 0);
                        for i in 0..8 {
                            let (x, y) = (self.to_e(&p[h * 8 + i], 8), self.to_e(&q[h * 8 + i], 8));
                            let c = self.ex.cmp(Cmp::Ult, x, y);
                            let d1 = self.ex.bin(Bop::Sub, x, y);
                            let d2 = self.ex.bin(Bop::Sub, y, x);
                            let d = self.ex.ite(c, d2, d1);
                            let d = self.ex.zext(d, 64);
                            acc = self.ex.bin(Bop::Add, acc, d);
                        }
                        out.push(self.from_e(acc));
                    }
                    Ok(Val::A(Rc::new(out)))
                }
                "x86.sse2.pmovmskb.128" => {
                    let p = Self::lanes(&a[0]);
                    let mut acc: Option<E> = None;
                    for i in (0..16).rev() {
                        let x = self.to_e(&p[i], 8);
                        let b = self.ex.extract(x, 7, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.ex.concat(h, b),
                        });
                    }
                    let r = self.ex.zext(acc.unwrap(), 32);
                    Ok(self.from_e(r))
                }
                "x86.sse2.pmadd.wd" => {
                    let (p, q) = (Self::lanes(&a[0]), Self::lanes(&a[1]));
                    let mut out = vec![];
                    for i in 0..4 {
                        let mut acc = self.ex.konst(32, 0);
                        for j in 0..2 {
                            let (x, y) = (self.to_e(&p[i * 2 + j], 16), self.to_e(&q[i * 2 + j], 16));
                            let (x, y) = (self.ex.sext(x, 32), self.ex.sext(y, 32));
                            let m = self.ex.bin(Bop::Mul, x, y);
                            acc = self.ex.bin(Bop::Add, acc, m);
                        }
                        out.push(self.from_e(acc));
                    }
                    Ok(Val::A(Rc::new(out)))
                }
                _ => Err(End::Unsupported(name.to_string())),
            },
            _ => Err(End::Unsupported(format!("llvm.{}", name))),
        }
    }

    pub fn fn_addr_name(&self, a: u64) -> Option<String> {
        let id = a >> 32;
        if id >= FUNC_BASE {
            return self.m.funcs.get((id - FUNC_BASE) as usize).map(|f| f.name.clone());
        }
        let _ = func_addr(0);
        None
    }
}

fn insert_path(agg: &Val, path: &[u32], v: Val) -> Val {
    if path.is_empty() {
        return v;
    }
    let l = match agg {
        Val::A(l) => l.clone(),
        _ => panic!("insertvalue into scalar"),
    };
    let mut o = (*l).clone();
    let i = path[0] as usize;
    o[i] = insert_path(&o[i], &path[1..], v);
    Val::A(Rc::new(o))
}

fn fbin(op: &str, w: u32, x: u64, y: u64) -> u64 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        let r = match op {
            "fadd" => a + b,
            "fsub" => a - b,
            "fmul" => a * b,
            "fdiv" => a / b,
            _ => a % b,
        };
        r.to_bits()
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            "fadd" => a + b,
            "fsub" => a - b,
            "fmul" => a * b,
            "fdiv" => a / b,
            _ => a % b,
        };
        r.to_bits() as u64
    }
}
fn fcmp(p: &str, w: u32, x: u64, y: u64) -> bool {
    let (a, b) = if w == 64 {
        (f64::from_bits(x), f64::from_bits(y))
    } else {
        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
    };
    let un = a.is_nan() || b.is_nan();
    match p {
        "oeq" => a == b,
        "ogt" => a > b,
        "oge" => a >= b,
        "olt" => a < b,
        "ole" => a <= b,
        "one" => !un && a != b,
        "ord" => !un,
        "uno" => un,
        "ueq" => un || a == b,
        "ugt" => un || a > b,
        "uge" => un || a >= b,
        "ult" => un || a < b,
        "ule" => un || a <= b,
        "une" => a != b,
        "true" => true,
        _ => false,
    }
}
fn fcast(op: &str, fw: u32, tw: u32, x: u64) -> u64 {
    let f = |x: u64| if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    let out = |v: f64| if tw == 64 { v.to_bits() } else { (v as f32).to_bits() as u64 };
    let m = if tw >= 64 { u64::MAX } else { (1 << tw) - 1 };
    match op {
        "fptoui" => (f(x) as u64) & m,
        "fptosi" => (f(x) as i64 as u64) & m,
        "uitofp" => out(x as f64),
        "sitofp" => out((((x << (64 - fw)) as i64) >> (64 - fw)) as f64),
        _ => out(f(x)),
    }
}

fn intercept_kind(n: &str) -> Ic {
    if n.contains("8hash_one") {
        return Ic::HashOne;
    }
    if n.contains("sha256_digest_block_u32") {
        return Ic::Sha;
    }
    if n.contains("6crypto7aessafe") {
        if n.ends_with("19AesSafe256Encryptor3new") || n.ends_with("19AesSafe256Decryptor3new") {
            return Ic::AesKey;
        }
        if n.contains("19AesSafe256Encryptor") && n.ends_with("13encrypt_block") {
            return Ic::AesEnc;
        }
        if n.contains("19AesSafe256Decryptor") && n.ends_with("13decrypt_block") {
            return Ic::AesDec;
        }
    }
    if n.ends_with("9panicking9panic_fmt") || n.ends_with("9panicking18panic_nounwind_fmt") {
        return Ic::PanicFmt;
    }
    if n.contains("3std2io5stdio7__eprint") || n.contains("3std2io5stdio6__print") || n.contains("5stdio6_print")
        || n.contains("5stdio7_eprint")
    {
        return Ic::Nop;
    }
    Ic::None
}

/// Functions that must survive as calls through optimisation.
pub fn keep_as_call(n: &str) -> bool {
    intercept_kind(n) != Ic::None
}

/// Of these, the ones whose parameters must stay as they are.
pub fn keep_signature(n: &str) -> bool {
    matches!(intercept_kind(n), Ic::AesKey | Ic::AesEnc | Ic::AesDec)
}

pub fn demangle(n: &str) -> String {
    // v0 mangling: keep the identifiers, drop disambiguators
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if k > 0 && i + k <= b.len() && k < 100 {
                parts.push(n[i..i + k].to_string());
                i += k;
            } else {
                i = st + 1;
            }
        } else if (b[i] == b's' || b[i] == b'B') && i + 1 < b.len() {
            // base-62 disambiguator or back reference up to '_'
            match n[i..].find('_') {
                Some(p) => i += p + 1,
                None => i += 1,
            }
        } else {
            i += 1;
        }
    }
    parts.join("::")
}

/// A model value for an output of an idealised function, unlike the others.
fn scramble(v: u32) -> u128 {
    let mut h = (v as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    (h >> 17) as u128
}
