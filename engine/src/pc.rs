//! Path constraints, partitioned into independent groups, and the query layer.
use crate::expr::*;
use crate::ir::Bop;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;

type Dom = [u64; 4];

#[derive(Clone)]
pub struct Group {
    pub vars: Vec<u32>,
    pub cs: Vec<E>,
    pub model: Vec<u128>,
    /// set of allowed values when the group is a single variable of <= 8 bits
    pub dom: Option<Dom>,
}

#[derive(Clone, Default)]
pub struct Pc {
    pub groups: Vec<Option<Rc<Group>>>,
    of: Rc<HashMap<u32, usize>>,
    /// idealised applications whose axioms have been added, by output variable
    pub axioms: Rc<std::collections::HashSet<(usize, usize)>>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub model_hits: u64,
    pub domain_hits: u64,
    pub ms: f64,
}

pub struct Solver {
    pub z3: Z3,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub st: Stats,
    /// report queries that take longer (ms)
    pub slow: u64,
}

#[derive(Debug)]
pub struct Unknown;

fn dom_of(t: &[u128]) -> Dom {
    let mut d = [0u64; 4];
    for (i, v) in t.iter().enumerate() {
        if *v == 1 {
            d[i / 64] |= 1 << (i % 64);
        }
    }
    d
}
fn inter(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn empty(a: &Dom) -> bool {
    a.iter().all(|x| *x == 0)
}
fn full(n: usize) -> Dom {
    let mut d = [0u64; 4];
    for i in 0..n {
        d[i / 64] |= 1 << (i % 64);
    }
    d
}
pub fn dom_has(d: &Dom, v: usize) -> bool {
    d[v / 64] >> (v % 64) & 1 == 1
}

/// Outcome of asking for both sides of a condition.
pub struct Both {
    pub t: Option<Rc<Vec<(u32, u128)>>>,
    pub f: Option<Rc<Vec<(u32, u128)>>>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        Solver { z3: Z3::new(timeout_ms), cache: HashMap::new(), st: Stats::default(), slow: std::env::var("SYMIR_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(0) }
    }

    pub fn z3_check(&mut self, ex: &Exprs, mut key: Vec<E>) -> Result<Option<Rc<Vec<(u32, u128)>>>, Unknown> {
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return Ok(r.clone());
        }
        let mut vars: Vec<u32> = vec![];
        for &e in &key {
            vars.extend(ex.sup(e).iter());
        }
        vars.sort();
        vars.dedup();
        let t = std::time::Instant::now();
        let r = self.z3.check(ex, &key, &vars);
        self.st.ms += t.elapsed().as_secs_f64() * 1e3;
        self.st.queries += 1;
        let out = match r {
            Res::Sat(m) => {
                self.st.sat += 1;
                Some(Rc::new(m))
            }
            Res::Unsat => {
                self.st.unsat += 1;
                None
            }
            Res::Unknown => {
                self.st.unknown += 1;
                return Err(Unknown);
            }
        };
        self.cache.insert(key, out.clone());
        Ok(out)
    }
}

impl Pc {
    fn gidx(&self, v: u32) -> Option<usize> {
        self.of.get(&v).copied()
    }
    fn touching(&self, sup: &[u32]) -> Vec<usize> {
        let mut g: Vec<usize> = sup.iter().filter_map(|v| self.gidx(*v)).collect();
        g.sort();
        g.dedup();
        g
    }
    pub fn value(&self, v: u32) -> u128 {
        match self.gidx(v) {
            Some(g) => {
                let g = self.groups[g].as_ref().unwrap();
                let i = g.vars.binary_search(&v).unwrap();
                g.model[i]
            }
            None => 0,
        }
    }
    /// Give a variable a value in the model without constraining it.
    pub fn seed(&mut self, v: u32, w: u32, val: u128) {
        if self.gidx(v).is_some() {
            return;
        }
        self.groups.push(Some(Rc::new(Group { vars: vec![v], cs: vec![], model: vec![val], dom: if w <= 8 { Some(full(1 << w)) } else { None } })));
        Rc::make_mut(&mut self.of).insert(v, self.groups.len() - 1);
    }
    /// The variables of the groups these variables are in, and these.
    pub fn vars_for(&self, sup: &[u32]) -> Vec<u32> {
        let mut out: Vec<u32> = sup.to_vec();
        for g in self.touching(sup) {
            out.extend(self.groups[g].as_ref().unwrap().vars.iter());
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn eval(&self, ex: &mut Exprs, e: E) -> u128 {
        ex.eval(e, &|v| self.value(v))
    }
    pub fn dom(&self, v: u32) -> Option<Option<Dom>> {
        // Some(None): unconstrained; Some(Some(d)): exactly d; None: relational
        match self.gidx(v) {
            None => Some(None),
            Some(g) => self.groups[g].as_ref().unwrap().dom.map(Some),
        }
    }
    /// A superset of the values a variable of at most 8 bits can take.
    pub fn dom_over(&self, ex: &mut Exprs, v: u32) -> Option<Dom> {
        let g = match self.gidx(v) {
            None => return None,
            Some(g) => self.groups[g].as_ref().unwrap().clone(),
        };
        if g.dom.is_some() {
            return g.dom;
        }
        let mut d: Option<Dom> = None;
        for c in &g.cs {
            if ex.sup(*c).len() == 1 && ex.sup(*c)[0] == v {
                if let Some((_, t)) = ex.truth(*c) {
                    let x = dom_of(&t);
                    d = Some(match d {
                        None => x,
                        Some(y) => inter(&x, &y),
                    });
                }
            }
        }
        d
    }
    pub fn constraints_for(&self, sup: &[u32]) -> Vec<E> {
        let mut out = vec![];
        for g in self.touching(sup) {
            out.extend(self.groups[g].as_ref().unwrap().cs.iter());
        }
        out
    }
    /// A condition that appears as such (or negated) among the constraints.
    pub fn implied(&self, ex: &mut Exprs, e: E) -> Option<bool> {
        let sup = ex.sup(e).clone();
        let gs = self.touching(&sup);
        if gs.is_empty() {
            return None;
        }
        let ne = ex.not(e);
        for g in gs {
            let g = self.groups[g].as_ref().unwrap();
            if g.cs.contains(&e) {
                return Some(true);
            }
            if g.cs.contains(&ne) {
                return Some(false);
            }
        }
        None
    }
    pub fn all(&self) -> Vec<E> {
        let mut out = vec![];
        for g in self.groups.iter().flatten() {
            out.extend(g.cs.iter());
        }
        out
    }

    /// Which sides of `e` are satisfiable together with the path condition.
    pub fn both(&self, ex: &mut Exprs, s: &mut Solver, e: E) -> Result<Both, Unknown> {
        if let Some(c) = ex.cval(e) {
            let m = Some(Rc::new(vec![]));
            return Ok(if c == 1 { Both { t: m, f: None } } else { Both { t: None, f: m } });
        }
        let ne = ex.not(e);
        let sup = ex.sup(e).clone();
        let gs = self.touching(&sup);
        for &g in &gs {
            let g = self.groups[g].as_ref().unwrap();
            if g.cs.contains(&e) {
                return Ok(Both { t: Some(Rc::new(vec![])), f: None });
            }
            if g.cs.contains(&ne) {
                return Ok(Both { t: None, f: Some(Rc::new(vec![])) });
            }
        }
        // single small variable
        if sup.len() == 1 && ex.vars[sup[0] as usize].w <= 8 {
            if let Some(d) = self.dom(sup[0]) {
                let (v, t) = ex.truth(e).unwrap();
                let d = d.unwrap_or_else(|| full(t.len()));
                let dt = inter(&d, &dom_of(&t));
                let mut df = d;
                for i in 0..4 {
                    df[i] &= !dt[i];
                }
                let cur = self.value(v);
                let pick = |d: &Dom| -> u128 {
                    if dom_has(d, cur as usize) {
                        return cur;
                    }
                    (0..256).find(|i| dom_has(d, *i)).unwrap() as u128
                };
                if !empty(&dt) && !empty(&df) {
                    s.st.domain_hits += 1;
                    return Ok(Both { t: Some(Rc::new(vec![(v, pick(&dt))])), f: Some(Rc::new(vec![(v, pick(&df))])) });
                }
                // one side is impossible: the solver has the last word
                let mut key = self.constraints_for(&sup);
                key.push(if empty(&dt) { e } else { ne });
                if s.z3_check(ex, key)?.is_some() {
                    panic!("solver disagrees with the domain computation on {}", ex.show(e, 8));
                }
                return Ok(if empty(&dt) {
                    Both { t: None, f: Some(Rc::new(vec![])) }
                } else {
                    Both { t: Some(Rc::new(vec![])), f: None }
                });
            }
        }
        let cur = self.eval(ex, e) == 1;
        s.st.model_hits += 1;
        let other = if cur { ne } else { e };
        let mut key = vec![];
        for &g in &gs {
            key.extend(self.groups[g].as_ref().unwrap().cs.iter());
        }
        key.push(other);
        let t0 = std::time::Instant::now();
        let nk = key.len();
        let keep = key.clone();
        let r = s.z3_check(ex, key)?;
        if s.slow > 0 && t0.elapsed().as_millis() as u64 >= s.slow {
            eprintln!("SLOW {}ms {} constraints, sat {}: {}", t0.elapsed().as_millis(), nk, r.is_some(), ex.show(other, 12));
        }
        let r = r.map(|m| self.keep(ex, &keep, m));
        let here = Some(Rc::new(vec![]));
        Ok(if cur { Both { t: here, f: r } } else { Both { t: r, f: here } })
    }

    /// Outputs of idealised functions keep their present (distinct) values where
    /// the constraints allow it, rather than the zeros of a solver's model, which
    /// would contradict each other.
    fn keep(&self, ex: &mut Exprs, cs: &[E], m: Rc<Vec<(u32, u128)>>) -> Rc<Vec<(u32, u128)>> {
        let ufs: Vec<u32> = m.iter().map(|x| x.0).filter(|v| ex.vars[*v as usize].uf).collect();
        if ufs.is_empty() {
            return m;
        }
        let mut by: HashMap<u32, Vec<E>> = HashMap::new();
        for &c in cs {
            for v in ex.sup(c).iter() {
                by.entry(*v).or_default().push(c);
            }
        }
        let mut val: HashMap<u32, u128> = m.iter().copied().collect();
        let mut changed = false;
        for v in ufs {
            let (old, new) = (self.value(v), val[&v]);
            if old == new || self.gidx(v).is_none() {
                continue;
            }
            val.insert(v, old);
            let es = by.get(&v).cloned().unwrap_or_default();
            let ok = es.iter().all(|e| ex.eval(*e, &|x| val.get(&x).copied().unwrap_or_else(|| self.value(x))) == 1);
            if ok {
                changed = true;
            } else {
                val.insert(v, new);
            }
        }
        if !changed {
            return m;
        }
        Rc::new(m.iter().map(|x| (x.0, val[&x.0])).collect())
    }

    /// Add a condition known to be satisfiable, with the model changes that make it so.
    pub fn add(&mut self, ex: &mut Exprs, e: E, upd: &[(u32, u128)]) {
        if ex.cval(e).is_some() {
            return;
        }
        // write the model update first
        let mut parts = vec![];
        self.split(ex, e, &mut parts);
        // merge: conjuncts are added one by one; the model update may span them
        for p in &parts {
            self.add1(ex, *p, upd);
        }
        for p in &parts {
            debug_assert_eq!(self.eval(ex, *p), 1, "model does not satisfy {}", ex.show(*p, 6));
        }
    }
    fn split(&self, ex: &mut Exprs, e: E, out: &mut Vec<E>) {
        if let K::Bin(Bop::And, a, b) = ex.k(e) {
            self.split(ex, a, out);
            self.split(ex, b, out);
        } else if let Some(n) = ex.is_not(e) {
            if let K::Bin(Bop::Or, a, b) = ex.k(n) {
                let x = ex.not(a);
                let y = ex.not(b);
                self.split(ex, x, out);
                self.split(ex, y, out);
            } else {
                out.push(e);
            }
        } else {
            out.push(e);
        }
    }
    fn add1(&mut self, ex: &mut Exprs, e: E, upd: &[(u32, u128)]) {
        if ex.cval(e).is_some() {
            return;
        }
        let sup = ex.sup(e).clone();
        let gs = self.touching(&sup);
        let val = |s: &Self, v: u32| -> u128 {
            match upd.iter().find(|x| x.0 == v) {
                Some(x) => x.1,
                None => s.value(v),
            }
        };
        if gs.len() == 1 {
            let gi = gs[0];
            let g0 = self.groups[gi].as_ref().unwrap();
            if g0.cs.contains(&e) {
                return;
            }
            if sup.iter().all(|v| g0.vars.binary_search(v).is_ok()) {
                let mut g = (**g0).clone();
                g.cs.push(e);
                for (i, v) in g.vars.iter().enumerate() {
                    g.model[i] = val(self, *v);
                }
                if let Some(d) = g.dom {
                    let (_, t) = ex.truth(e).unwrap();
                    g.dom = Some(inter(&d, &dom_of(&t)));
                }
                self.groups[gi] = Some(Rc::new(g));
                return;
            }
        }
        let mut vars: Vec<u32> = sup.to_vec();
        let mut cs = vec![];
        for &g in &gs {
            let gr = self.groups[g].as_ref().unwrap();
            vars.extend(gr.vars.iter());
            cs.extend(gr.cs.iter());
        }
        cs.push(e);
        vars.sort();
        vars.dedup();
        let model = vars.iter().map(|v| val(self, *v)).collect();
        let dom = if vars.len() == 1 && ex.vars[vars[0] as usize].w <= 8 && gs.is_empty() {
            ex.truth(e).map(|(_, t)| dom_of(&t))
        } else {
            None
        };
        for &g in &gs {
            self.groups[g] = None;
        }
        let gi = match self.groups.iter().position(|g| g.is_none()) {
            Some(i) => i,
            None => {
                self.groups.push(None);
                self.groups.len() - 1
            }
        };
        let of = Rc::make_mut(&mut self.of);
        for v in &vars {
            of.insert(*v, gi);
        }
        self.groups[gi] = Some(Rc::new(Group { vars, cs, model, dom }));
    }
}
