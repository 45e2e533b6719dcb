//! Minimal binding to libz3 (C API) and translation of expressions.
use crate::expr::*;
use crate::ir::Bop;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Z3 {
    ctx: P,
    solver: P,
    solver2: P,
    bv: Vec<P>,
    bl: Vec<P>,
    vars: Vec<P>,
    pub dump: Option<String>,
    dumped: u32,
    pub timeout_ms: u32,
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let q = CString::new("QF_BV").unwrap();
            let solver2 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, q.as_ptr()));
            Z3_solver_inc_ref(ctx, solver2);
            let t = CString::new("timeout").unwrap();
            for (s, ms) in [(solver, 1000u32.min(timeout_ms)), (solver2, timeout_ms)] {
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), ms);
                Z3_solver_set_params(ctx, s, p);
            }
            Z3 { ctx, solver, solver2, bv: vec![], bl: vec![], vars: vec![], dump: None, dumped: 0, timeout_ms }
        }
    }
    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let a = unsafe {
            let so = Z3_mk_bv_sort(self.ctx, w);
            Z3_inc_ref(self.ctx, so);
            Z3_mk_numeral(self.ctx, s.as_ptr(), so)
        };
        self.keep(a)
    }
    fn var(&mut self, ex: &Exprs, v: u32) -> P {
        while self.vars.len() <= v as usize {
            self.vars.push(std::ptr::null_mut());
        }
        if self.vars[v as usize].is_null() {
            let info = &ex.vars[v as usize];
            let s = CString::new(format!("v{}_{}", v, info.name)).unwrap();
            let a = unsafe {
                let sym = Z3_mk_string_symbol(self.ctx, s.as_ptr());
                Z3_mk_const(self.ctx, sym, Z3_mk_bv_sort(self.ctx, info.w))
            };
            self.vars[v as usize] = self.keep(a);
        }
        self.vars[v as usize]
    }
    /// 1-bit expressions as Bool
    fn tb(&mut self, ex: &Exprs, e: E) -> P {
        let i = e as usize;
        if self.bl.len() <= i {
            self.bl.resize(ex.nodes.len(), std::ptr::null_mut());
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        let c = self.ctx;
        let r = unsafe {
            match ex.k(e) {
                K::Const(1) => Z3_mk_true(c),
                K::Const(_) => Z3_mk_false(c),
                K::Cmp(op, a, b) => {
                    if op == Cmp::Eq && ex.w(a) == 1 {
                        let (x, y) = (self.tb(ex, a), self.tb(ex, b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.t(ex, a), self.t(ex, b));
                        match op {
                            Cmp::Eq => Z3_mk_eq(c, x, y),
                            Cmp::Ult => Z3_mk_bvult(c, x, y),
                            Cmp::Ule => Z3_mk_bvule(c, x, y),
                            Cmp::Slt => Z3_mk_bvslt(c, x, y),
                            Cmp::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                K::Bin(Bop::And, a, b) => {
                    let x = [self.tb(ex, a), self.tb(ex, b)];
                    Z3_mk_and(c, 2, x.as_ptr())
                }
                K::Bin(Bop::Or, a, b) => {
                    let x = [self.tb(ex, a), self.tb(ex, b)];
                    Z3_mk_or(c, 2, x.as_ptr())
                }
                K::Bin(Bop::Xor, a, b) => {
                    if ex.cval(b) == Some(1) {
                        let x = self.tb(ex, a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.tb(ex, a), self.tb(ex, b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                K::Ite(q, a, b) => {
                    let (z, x, y) = (self.tb(ex, q), self.tb(ex, a), self.tb(ex, b));
                    Z3_mk_ite(c, z, x, y)
                }
                _ => {
                    let x = self.t(ex, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        if self.bl.len() <= i {
            self.bl.resize(i + 1, std::ptr::null_mut());
        }
        self.bl[i] = r;
        r
    }
    fn mux(&mut self, t: &[u64], w: u32, idx: P, bit: u32) -> P {
        if t.iter().all(|x| *x == t[0]) {
            return self.num(t[0] as u128, w);
        }
        let h = t.len() / 2;
        let lo = self.mux(&t[..h], w, idx, bit.wrapping_sub(1));
        let hi = self.mux(&t[h..], w, idx, bit.wrapping_sub(1));
        unsafe {
            let b = Z3_mk_extract(self.ctx, bit, bit, idx);
            Z3_inc_ref(self.ctx, b);
            let one = self.num(1, 1);
            let c = Z3_mk_eq(self.ctx, b, one);
            Z3_inc_ref(self.ctx, c);
            let r = Z3_mk_ite(self.ctx, c, hi, lo);
            self.keep(r)
        }
    }
    fn t(&mut self, ex: &Exprs, e: E) -> P {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(ex.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let c = self.ctx;
        let w = ex.w(e);
        let r = unsafe {
            match ex.k(e) {
                K::Const(v) => self.num(v, w),
                K::Var(v) => self.var(ex, v),
                K::Bin(op, a, b) => {
                    let (x, y) = (self.t(ex, a), self.t(ex, b));
                    match op {
                        Bop::Add => Z3_mk_bvadd(c, x, y),
                        Bop::Sub => Z3_mk_bvsub(c, x, y),
                        Bop::Mul => Z3_mk_bvmul(c, x, y),
                        Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bop::URem => Z3_mk_bvurem(c, x, y),
                        Bop::SRem => Z3_mk_bvsrem(c, x, y),
                        Bop::And => Z3_mk_bvand(c, x, y),
                        Bop::Or => Z3_mk_bvor(c, x, y),
                        Bop::Xor => Z3_mk_bvxor(c, x, y),
                        Bop::Shl => Z3_mk_bvshl(c, x, y),
                        Bop::LShr => Z3_mk_bvlshr(c, x, y),
                        Bop::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                K::Cmp(..) => {
                    let b = self.tb(ex, e);
                    let (one, zero) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, one, zero)
                }
                K::Ite(q, a, b) => {
                    let z = self.tb(ex, q);
                    let (x, y) = (self.t(ex, a), self.t(ex, b));
                    Z3_mk_ite(c, z, x, y)
                }
                K::Extract(a, lo) => {
                    let x = self.t(ex, a);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                K::Concat(a, b) => {
                    let (x, y) = (self.t(ex, a), self.t(ex, b));
                    Z3_mk_concat(c, x, y)
                }
                K::ZExt(a) => {
                    let x = self.t(ex, a);
                    Z3_mk_zero_ext(c, w - ex.w(a), x)
                }
                K::SExt(a) => {
                    let x = self.t(ex, a);
                    Z3_mk_sign_ext(c, w - ex.w(a), x)
                }
                K::Table(t, a) => {
                    let x = self.t(ex, a);
                    let tab = ex.tables[t as usize].clone();
                    self.mux(&tab, w, x, 7)
                }
            }
        };
        let r = self.keep(r);
        if self.bv.len() <= i {
            self.bv.resize(i + 1, std::ptr::null_mut());
        }
        self.bv[i] = r;
        r
    }

    pub fn check(&mut self, ex: &Exprs, cs: &[E], vars: &[u32]) -> Res {
        unsafe {
            let mut asts = vec![];
            for &e in cs {
                asts.push(self.tb(ex, e));
            }
            let mut s = self.solver;
            for round in 0..2 {
                s = if round == 0 { self.solver } else { self.solver2 };
                Z3_solver_push(self.ctx, s);
                for &a in &asts {
                    Z3_solver_assert(self.ctx, s, a);
                }
                let r = Z3_solver_check(self.ctx, s);
                if r == 0 && round == 0 {
                    Z3_solver_pop(self.ctx, s, 1);
                    continue;
                }
                let out = if r == 1 {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut o = vec![];
                    for &v in vars {
                        let a = self.var(ex, v);
                        let mut val: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut val) {
                            let t = CStr::from_ptr(Z3_get_numeral_string(self.ctx, val));
                            o.push((v, t.to_str().unwrap().parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(o)
                } else if r == -1 {
                    if let Some(d) = &self.dump {
                        if self.dumped < 400 {
                            let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                            let p = format!("{}/q{}_{}.smt2", d, std::process::id(), self.dumped);
                            let _ = std::fs::write(p, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
                            self.dumped += 1;
                        }
                    }
                    Res::Unsat
                } else {
                    Res::Unknown
                };
                Z3_solver_pop(self.ctx, s, 1);
                return out;
            }
            let _ = s;
            Res::Unknown
        }
    }
}
