//! z3 back end: incremental QF_BV solver, path constraints passed as assumptions.
use crate::expr::*;
use crate::gf2::{Gf2, Res};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, a: P, v: *mut c_uint) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::abort();
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

/// first attempt on bits, before the integer view
const QUICK: u32 = 1500;

pub struct Model {
    pub vals: Vec<u8>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u8>) -> Rc<Model> {
        Rc::new(Model { vals, memo: Default::default() })
    }
    pub fn eval(&self, e: E) -> u128 {
        if let N::Const(v) = node(e) {
            return v;
        }
        let mut m = self.memo.borrow_mut();
        if m.len() > 2_000_000 {
            m.clear();
        }
        eval(e, &self.vals, &mut m)
    }
}

pub struct Solver {
    c: P,
    s: P,
    bools: FxMap<E, P>,
    bvs: FxMap<E, P>,
    lits: FxMap<E, P>,
    cache: std::collections::HashMap<Vec<E>, (Sat, Option<Vec<(u32, u8)>>)>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_query: f64,
    pub timeout_ms: u32,
    cur_timeout: u32,
    pub resets: u64,
    pub gf2: Gf2,
    lia_score: i32,
    pub by_integers: u64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bools: Default::default(),
            bvs: Default::default(),
            lits: Default::default(),
            cache: Default::default(),
            queries: 0,
            cache_hits: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            time: 0.0,
            max_query: 0.0,
            timeout_ms,
            cur_timeout: timeout_ms,
            resets: 0,
            gf2: Default::default(),
            lia_score: 0,
            by_integers: 0,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_del_context(self.c);
                self.resets += 1;
            }
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            self.s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 1);
            Z3_solver_set_params(self.c, self.s, p);
            self.bools.clear();
            self.bvs.clear();
            self.lits.clear();
        }
    }
    fn var_ast(&mut self, id: u32) -> P {
        unsafe {
            let n = CString::new(format!("v{}", id)).unwrap();
            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8))
        }
    }
    fn bv(&mut self, e: E) -> P {
        if let Some(p) = self.bvs.get(&e) {
            return *p;
        }
        let (n, w) = nodew(e);
        let c = self.c;
        let r = unsafe {
            if w == 1 && !matches!(n, N::Const(_) | N::Ext(..)) {
                let b = self.boolean(e);
                let bs = Z3_mk_bv_sort(c, 1);
                let one = Z3_mk_numeral(c, b"1\0".as_ptr() as _, bs);
                let zero = Z3_mk_numeral(c, b"0\0".as_ptr() as _, bs);
                Z3_mk_ite(c, b, one, zero)
            } else {
                match n {
                    N::Const(v) => {
                        let s = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w as c_uint))
                    }
                    N::Var(i) => self.var_ast(i),
                    N::Not(a) => {
                        let a = self.bv(a);
                        Z3_mk_bvnot(c, a)
                    }
                    N::Bin(op, a, b) => {
                        let x = self.bv(a);
                        let y = self.bv(b);
                        let f = match op {
                            B::Add => Z3_mk_bvadd,
                            B::Sub => Z3_mk_bvsub,
                            B::Mul => Z3_mk_bvmul,
                            B::UDiv => Z3_mk_bvudiv,
                            B::SDiv => Z3_mk_bvsdiv,
                            B::URem => Z3_mk_bvurem,
                            B::SRem => Z3_mk_bvsrem,
                            B::And => Z3_mk_bvand,
                            B::Or => Z3_mk_bvor,
                            B::Xor => Z3_mk_bvxor,
                            B::Shl => Z3_mk_bvshl,
                            B::LShr => Z3_mk_bvlshr,
                            B::AShr => Z3_mk_bvashr,
                        };
                        f(c, x, y)
                    }
                    N::Ite(k, a, b) => {
                        let k = self.boolean(k);
                        let a = self.bv(a);
                        let b = self.bv(b);
                        Z3_mk_ite(c, k, a, b)
                    }
                    N::Ext(lo, a) => {
                        let a = self.bv(a);
                        Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, a)
                    }
                    N::Cat(h, l) => {
                        let h = self.bv(h);
                        let l = self.bv(l);
                        Z3_mk_concat(c, h, l)
                    }
                    N::Sext(a) => {
                        let aw = width(a);
                        let a = self.bv(a);
                        Z3_mk_sign_ext(c, (w - aw) as c_uint, a)
                    }
                    N::Cmp(..) => unreachable!(),
                }
            }
        };
        self.bvs.insert(e, r);
        r
    }
    fn boolean(&mut self, e: E) -> P {
        if let Some(p) = self.bools.get(&e) {
            return *p;
        }
        let (n, w) = nodew(e);
        assert_eq!(w, 1);
        let c = self.c;
        let r = unsafe {
            match n {
                N::Const(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Not(a) => {
                    let a = self.boolean(a);
                    Z3_mk_not(c, a)
                }
                N::Cmp(op, a, b) => {
                    let x = self.bv(a);
                    let y = self.bv(b);
                    match op {
                        C::Eq => Z3_mk_eq(c, x, y),
                        C::Ult => Z3_mk_bvult(c, x, y),
                        C::Ule => Z3_mk_bvule(c, x, y),
                        C::Slt => Z3_mk_bvslt(c, x, y),
                        C::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                N::Bin(B::And, a, b) => {
                    let v = [self.boolean(a), self.boolean(b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(B::Or, a, b) => {
                    let v = [self.boolean(a), self.boolean(b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(B::Xor | B::Add | B::Sub, a, b) => {
                    let x = self.boolean(a);
                    let y = self.boolean(b);
                    Z3_mk_not(c, Z3_mk_eq(c, x, y))
                }
                N::Ite(k, a, b) => {
                    let k = self.boolean(k);
                    let a = self.boolean(a);
                    let b = self.boolean(b);
                    Z3_mk_ite(c, k, a, b)
                }
                N::Bin(B::Mul, a, b) => {
                    let v = [self.boolean(a), self.boolean(b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Ext(..) => {
                    let x = self.bv(e);
                    let one = Z3_mk_numeral(c, b"1\0".as_ptr() as _, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, x, one)
                }
                _ => panic!("bool {:?}", n),
            }
        };
        self.bools.insert(e, r);
        r
    }
    fn lit(&mut self, e: E) -> P {
        if let Some(p) = self.lits.get(&e) {
            return *p;
        }
        let b = self.boolean(e);
        unsafe {
            let n = CString::new(format!("p{}", e.0)).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bool_sort(self.c));
            Z3_solver_assert(self.c, self.s, Z3_mk_implies(self.c, p, b));
            self.lits.insert(e, p);
            p
        }
    }
    /// Check satisfiability of the conjunction; on sat returns values of the variables involved.
    pub fn check(&mut self, cs: Vec<E>) -> (Sat, Option<Vec<(u32, u8)>>) {
        if !cs.iter().any(|e| nonlinear(*e)) {
            return self.check_raw(cs);
        }
        let full = self.timeout_ms;
        self.set_timeout(2000.min(full));
        let mut r = self.check_raw(cs.clone());
        if r.0 == Sat::Unknown {
            // settle the choices inside the hard constraints by the easy ones
            let (hard, easy): (Vec<E>, Vec<E>) = cs.iter().partition(|e| nonlinear(**e));
            let mut map: FxMap<E, E> = Default::default();
            for t in subterms(&hard) {
                if let N::Ite(c, a, b) = node(t) {
                    if nonlinear(c) {
                        continue;
                    }
                    let mut q = easy.clone();
                    q.push(c);
                    if self.check_raw(q).0 == Sat::Unsat {
                        map.insert(t, b);
                        continue;
                    }
                    let mut q = easy.clone();
                    q.push(not(c));
                    if self.check_raw(q).0 == Sat::Unsat {
                        map.insert(t, a);
                    }
                }
            }
            // chains of replaced choices
            for _ in 0..4 {
                let keys: Vec<E> = map.keys().copied().collect();
                for k in keys {
                    let v = map[&k];
                    let mut m2 = map.clone();
                    m2.remove(&k);
                    let v2 = subst(v, &m2, &mut Default::default());
                    map.insert(k, v2);
                }
            }
            let mut memo = Default::default();
            let mut q = easy.clone();
            for h in &hard {
                q.push(subst(*h, &map, &mut memo));
            }
            // products and quotients as unknowns: enough when all uses share the same term
            let mut abs: FxMap<E, E> = Default::default();
            for t in subterms(&q) {
                if let N::Bin(B::Mul | B::UDiv | B::SDiv | B::URem | B::SRem, a, b) = node(t) {
                    if as_const(a).is_none() && as_const(b).is_none() && width(t) % 8 == 0 {
                        let base = 0x4000_0000 + t.0 * 16;
                        let mut v = var(base);
                        for i in 1..width(t) as u32 / 8 {
                            v = concat(var(base + i), v);
                        }
                        abs.insert(t, v);
                    }
                }
            }
            if !abs.is_empty() {
                let mut memo = Default::default();
                let a: Vec<E> = q.iter().map(|e| subst(*e, &abs, &mut memo)).collect();
                r = self.check_raw(a);
            }
            if r.0 != Sat::Unsat {
                self.set_timeout(full);
                r = self.check_raw(q);
            }
        }
        self.set_timeout(full);
        r
    }
    /// starts over with a new solver, forgetting all answers
    pub fn restart(&mut self) {
        self.cache.clear();
        self.init();
        self.cur_timeout = self.timeout_ms;
    }
    fn set_timeout(&mut self, ms: u32) {
        if ms == self.cur_timeout {
            return;
        }
        self.cur_timeout = ms;
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    fn check_raw(&mut self, mut cs: Vec<E>) -> (Sat, Option<Vec<(u32, u8)>>) {
        cs.sort();
        cs.dedup();
        cs.retain(|e| as_const(*e) != Some(1));
        if cs.iter().any(|e| as_const(*e) == Some(0)) {
            return (Sat::Unsat, None);
        }
        if let Some(r) = self.cache.get(&cs) {
            self.cache_hits += 1;
            return r.clone();
        }
        if self.lits.len() > 4000 || self.bvs.len() > 400_000 {
            let t = self.cur_timeout;
            self.init();
            self.cur_timeout = self.timeout_ms;
            self.set_timeout(t);
        }
        let t = Instant::now();
        if cs.iter().any(|e| self.gf2.worth(*e)) {
            let r = match self.gf2.check(&cs) {
                Res::Unsat => Some((Sat::Unsat, None)),
                Res::Model(m) => Some((Sat::Sat, Some(m))),
                Res::Dont => None,
            };
            if let Some(r) = r {
                self.queries += 1;
                if r.0 == Sat::Sat {
                    self.sat += 1;
                } else {
                    self.unsat += 1;
                }
                self.time += t.elapsed().as_secs_f64();
                self.cache.insert(cs, r.clone());
                return r;
            }
        }
        let lits: Vec<P> = cs.iter().map(|e| self.lit(*e)).collect();
        self.queries += 1;
        let full = self.cur_timeout;
        // sums of wide unknowns: the integer view, before or after a short attempt on bits, whichever has done better
        let arith = full > QUICK && crate::lia::worth(&cs);
        let lia_first = arith && self.lia_score > 1;
        let mut r = 0;
        if arith && !lia_first {
            self.set_timeout(QUICK);
            r = unsafe { Z3_solver_check_assumptions(self.c, self.s, lits.len() as c_uint, lits.as_ptr()) };
            if r == 0 {
                // (a change of parameters could spoil the model)
                self.set_timeout(full);
            }
        }
        if arith && r == 0 {
            let l = match crate::lia::check(&cs, if lia_first { 4000 } else { 20_000 }.min(full)) {
                crate::lia::Res::Unsat => Some((Sat::Unsat, None)),
                crate::lia::Res::Model(m) => Some((Sat::Sat, Some(m))),
                crate::lia::Res::Dont => None,
            };
            if std::env::var("SYMEX_SLOW").is_ok() && t.elapsed().as_secs_f64() > 1.0 {
                eprintln!("integer view: {:?} after {:.2}s", l.as_ref().map(|x| x.0), t.elapsed().as_secs_f64());
            }
            self.lia_score += if l.is_some() { 1 } else { -2 };
            self.lia_score = self.lia_score.clamp(-6, 6);
            if let Some(l) = l {
                self.by_integers += 1;
                if l.0 == Sat::Sat {
                    self.sat += 1;
                } else {
                    self.unsat += 1;
                }
                let dt = t.elapsed().as_secs_f64();
                self.time += dt;
                self.max_query = self.max_query.max(dt);
                self.cache.insert(cs, l.clone());
                return l;
            }
        }
        if r == 0 {
            r = unsafe { Z3_solver_check_assumptions(self.c, self.s, lits.len() as c_uint, lits.as_ptr()) };
        }
        let res = match r {
            1 => {
                self.sat += 1;
                let mut vs: Vec<u32> = vec![];
                for e in &cs {
                    vs.extend(vars_of(*e).iter());
                }
                vs.sort();
                vs.dedup();
                let mut out = Vec::with_capacity(vs.len());
                unsafe {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    for v in vs {
                        let a = self.var_ast(v);
                        let mut r: P = std::ptr::null_mut();
                        let mut x: c_uint = 0;
                        if Z3_model_eval(self.c, m, a, true, &mut r) {
                            Z3_get_numeral_uint(self.c, r, &mut x);
                        }
                        out.push((v, x as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                (Sat::Sat, Some(out))
            }
            -1 => {
                self.unsat += 1;
                (Sat::Unsat, None)
            }
            _ => {
                self.unknown += 1;
                let why = unsafe { CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s)) };
                eprintln!("solver: unknown ({:?}), {} constraints", why, cs.len());
                if std::env::var("SYMEX_DUMP").is_ok() {
                    for e in &cs {
                        eprintln!("  {}", show(*e, 12));
                    }
                }
                (Sat::Unknown, None)
            }
        };
        self.set_timeout(full);
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if let Some(x) = std::env::var("SYMEX_SLOW").ok().and_then(|s| s.parse::<f64>().ok()) {
            if dt > x {
                if let Some(t) = subterms(&cs).into_iter().find(|t| matches!(node(*t), N::Ext(_, b) if !matches!(node(b), N::Var(_)))) {
                    eprintln!("slow term {}", show(t, 6));
                }
                eprintln!("slow query {:.2}s {} {}", dt, r, cs.iter().map(|e| show(*e, 7)).collect::<Vec<_>>().join(" && "));
            }
        }
        if dt > self.max_query {
            self.max_query = dt;
        }
        if res.0 != Sat::Unknown {
            self.cache.insert(cs, res.clone());
        }
        res
    }
}
