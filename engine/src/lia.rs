//! Integer-arithmetic view of a query: sums, differences, products and quotients by constants, comparisons and
//! choices are translated to linear integer arithmetic with explicit carries, and given to z3's simplex-based solver.
//! Other operations become unknown integers, so "unsatisfiable" is always right and a satisfying assignment is only
//! reported after evaluating the constraints under it.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_fresh_const(c: P, p: *const c_char, s: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
}

pub enum Res {
    Unsat,
    Model(Vec<(u32, u8)>),
    Dont,
}

/// 2^n as a decimal numeral
fn pow2(n: u32) -> String {
    if n < 128 {
        return (1u128 << n).to_string();
    }
    let mut d: Vec<u8> = vec![1];
    for _ in 0..n {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

struct T {
    c: P,
    s: P,
    int: P,
    ints: FxMap<E, P>,
    bools: FxMap<E, P>,
    words: FxMap<Vec<u32>, P>,
    opaque: u32,
}
impl T {
    unsafe fn num(&self, s: &str) -> P {
        let s = CString::new(s).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), self.int)
    }
    unsafe fn k(&self, v: u128) -> P {
        self.num(&v.to_string())
    }
    /// an unknown in 0..=max
    unsafe fn fresh(&self, max: u128) -> P {
        let v = Z3_mk_fresh_const(self.c, b"t\0".as_ptr() as _, self.int);
        Z3_solver_assert(self.c, self.s, Z3_mk_le(self.c, self.k(0), v));
        Z3_solver_assert(self.c, self.s, Z3_mk_le(self.c, v, self.k(max)));
        v
    }
    unsafe fn add(&self, v: &[P]) -> P {
        if v.len() == 1 {
            return v[0];
        }
        Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr())
    }
    unsafe fn scale(&self, n: &str, v: P) -> P {
        if n == "1" {
            return v;
        }
        let a = [self.num(n), v];
        Z3_mk_mul(self.c, 2, a.as_ptr())
    }
    /// v = high * 2^at + low with low < 2^at
    unsafe fn split(&self, v: P, max: u128, at: u32) -> (P, P) {
        if at == 0 {
            return (v, self.k(0));
        }
        let h = self.fresh(if at < 128 { max >> at } else { 0 });
        let l = self.fresh(mask(at.min(128) as u8).min(max));
        let s = self.add(&[self.scale(&pow2(at), h), l]);
        Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, v, s));
        (h, l)
    }
    /// v modulo 2^w, for v < turns * 2^w
    unsafe fn wrap(&self, v: P, w: u8, turns: u128) -> P {
        if turns <= 1 {
            return v;
        }
        let q = self.fresh(turns - 1);
        let r = self.fresh(mask(w));
        let s = self.add(&[self.scale(&pow2(w as u32), q), r]);
        Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, v, s));
        r
    }
    unsafe fn div(&self, v: P, max: u128, k: u128) -> (P, P) {
        let q = self.fresh(max / k);
        let r = self.fresh(k - 1);
        let s = self.add(&[self.scale(&k.to_string(), q), r]);
        Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, v, s));
        (q, r)
    }
    unsafe fn signed(&mut self, e: E) -> P {
        let w = width(e) as u32;
        let v = self.int(e);
        if known_zero(e) >> (w - 1) & 1 == 1 {
            return v;
        }
        let a = [v, self.num(&pow2(w))];
        let neg = Z3_mk_sub(self.c, 2, a.as_ptr());
        let h = self.num(&pow2(w - 1));
        Z3_mk_ite(self.c, Z3_mk_lt(self.c, v, h), v, neg)
    }
    unsafe fn word(&mut self, vars: Vec<u32>) -> P {
        if let Some(p) = self.words.get(&vars) {
            return *p;
        }
        let v = self.fresh(mask((vars.len() * 8) as u8));
        self.words.insert(vars, v);
        v
    }
    unsafe fn int(&mut self, e: E) -> P {
        if let Some(p) = self.ints.get(&e) {
            return *p;
        }
        let (n, w) = nodew(e);
        let r = if w == 1 && !matches!(n, N::Const(_) | N::Ext(..)) {
            let b = self.boolean(e);
            Z3_mk_ite(self.c, b, self.k(1), self.k(0))
        } else {
            match n {
                N::Const(v) => self.k(v),
                N::Var(i) => self.word(vec![i]),
                N::Not(a) => {
                    let a = [self.k(mask(w)), self.int(a)];
                    Z3_mk_sub(self.c, 2, a.as_ptr())
                }
                N::Cat(..) => {
                    // pieces from the top; runs of input bytes become one unknown
                    let mut pieces = vec![];
                    let mut at = e;
                    while let N::Cat(h, l) = node(at) {
                        pieces.push(h);
                        at = l;
                    }
                    pieces.push(at);
                    let mut sh = 0u32;
                    let mut sum = vec![];
                    let mut i = pieces.len();
                    while i > 0 {
                        i -= 1;
                        if let N::Var(v) = node(pieces[i]) {
                            let mut run = vec![v];
                            while i > 0 {
                                if let N::Var(v) = node(pieces[i - 1]) {
                                    run.push(v);
                                    i -= 1;
                                } else {
                                    break;
                                }
                            }
                            let n = run.len() as u32 * 8;
                            let p = self.word(run);
                            sum.push(self.scale(&pow2(sh), p));
                            sh += n;
                        } else {
                            let p = pieces[i];
                            if as_const(p) != Some(0) {
                                let x = self.int(p);
                                sum.push(self.scale(&pow2(sh), x));
                            }
                            sh += width(p) as u32;
                        }
                    }
                    if sum.is_empty() {
                        self.k(0)
                    } else {
                        self.add(&sum)
                    }
                }
                N::Ext(lo, a) => {
                    let v = self.int(a);
                    let (h, _) = self.split(v, umax(a), lo as u32);
                    let (_, l) = self.split(h, umax(a) >> lo, w as u32);
                    if umax(a) >> lo <= mask(w) {
                        h
                    } else {
                        l
                    }
                }
                N::Sext(a) => {
                    let aw = width(a) as u32;
                    let v = self.int(a);
                    let add = self.k(mask(w) - mask(aw as u8));
                    let neg = self.add(&[v, add]);
                    let h = self.num(&pow2(aw - 1));
                    Z3_mk_ite(self.c, Z3_mk_lt(self.c, v, h), v, neg)
                }
                N::Ite(c, a, b) => {
                    let c = self.boolean(c);
                    let a = self.int(a);
                    let b = self.int(b);
                    Z3_mk_ite(self.c, c, a, b)
                }
                N::Bin(op, a, b) => {
                    let (ka, kb) = (as_const(a), as_const(b));
                    match op {
                        B::Add => {
                            let v = [self.int(a), self.int(b)];
                            let t = self.add(&v);
                            let fits = umax(a).checked_add(umax(b)).map_or(false, |s| s <= mask(w));
                            self.wrap(t, w, if fits { 1 } else { 2 })
                        }
                        B::Sub => {
                            let (x, y) = (self.int(a), self.int(b));
                            let r = self.fresh(mask(w));
                            let q = self.fresh(1);
                            let l = self.add(&[r, y]);
                            let h = self.add(&[x, self.scale(&pow2(w as u32), q)]);
                            Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, l, h));
                            r
                        }
                        B::Mul if ka.is_some() || kb.is_some() => {
                            let (k, x) = if let Some(k) = ka { (k, b) } else { (kb.unwrap(), a) };
                            let v = self.int(x);
                            let t = self.scale(&k.to_string(), v);
                            let fits = umax(x).checked_mul(k).map_or(false, |s| s <= mask(w));
                            self.wrap(t, w, if fits { 1 } else { k })
                        }
                        B::UDiv | B::URem if kb.map_or(false, |k| k > 0) => {
                            let v = self.int(a);
                            let (q, r) = self.div(v, umax(a), kb.unwrap());
                            if op == B::UDiv { q } else { r }
                        }
                        B::LShr if kb.map_or(false, |k| k < w as u128) => {
                            let v = self.int(a);
                            self.split(v, umax(a), kb.unwrap() as u32).0
                        }
                        B::Shl if kb.map_or(false, |k| k < w as u128) => {
                            let k = kb.unwrap() as u32;
                            let v = self.int(a);
                            let (_, l) = self.split(v, umax(a), w as u32 - k);
                            self.scale(&pow2(k), l)
                        }
                        B::And if kb.map_or(false, |k| k & k.wrapping_add(1) == 0 && k > 0) => {
                            let v = self.int(a);
                            self.split(v, umax(a), 128 - kb.unwrap().leading_zeros()).1
                        }
                        B::Or | B::Xor if known_zero(a) | known_zero(b) == mask(w) => {
                            let v = [self.int(a), self.int(b)];
                            self.add(&v)
                        }
                        _ => {
                            self.opaque += 1;
                            self.fresh(umax(e))
                        }
                    }
                }
                N::Cmp(..) => unreachable!(),
            }
        };
        self.ints.insert(e, r);
        r
    }
    unsafe fn boolean(&mut self, e: E) -> P {
        if let Some(p) = self.bools.get(&e) {
            return *p;
        }
        let c = self.c;
        let r = match node(e) {
            N::Const(v) => {
                if v == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            N::Not(a) => {
                let a = self.boolean(a);
                Z3_mk_not(c, a)
            }
            N::Cmp(op, a, b) => {
                if width(a) == 1 && op == C::Eq {
                    let (a, b) = (self.boolean(a), self.boolean(b));
                    Z3_mk_eq(c, a, b)
                } else {
                    let (x, y) = if matches!(op, C::Slt | C::Sle) { (self.signed(a), self.signed(b)) } else { (self.int(a), self.int(b)) };
                    match op {
                        C::Eq => Z3_mk_eq(c, x, y),
                        C::Ult | C::Slt => Z3_mk_lt(c, x, y),
                        C::Ule | C::Sle => Z3_mk_le(c, x, y),
                    }
                }
            }
            N::Bin(op, a, b) => {
                let v = [self.boolean(a), self.boolean(b)];
                match op {
                    B::And | B::Mul => Z3_mk_and(c, 2, v.as_ptr()),
                    B::Or => Z3_mk_or(c, 2, v.as_ptr()),
                    B::Xor | B::Add | B::Sub => Z3_mk_not(c, Z3_mk_eq(c, v[0], v[1])),
                    _ => {
                        self.opaque += 1;
                        let f = self.fresh(1);
                        Z3_mk_eq(c, f, self.k(1))
                    }
                }
            }
            N::Ite(k, a, b) => {
                let (k, a, b) = (self.boolean(k), self.boolean(a), self.boolean(b));
                Z3_mk_ite(c, k, a, b)
            }
            _ => {
                let x = self.int(e);
                Z3_mk_eq(c, x, self.k(1))
            }
        };
        self.bools.insert(e, r);
        r
    }
}
/// sums or comparisons of wide unknowns
pub fn worth(cs: &[E]) -> bool {
    subterms(cs).iter().any(|t| matches!(node(*t), N::Bin(B::Add | B::Sub | B::Mul | B::UDiv | B::URem, ..)) && width(*t) >= 32)
}
pub fn check(cs: &[E], timeout_ms: u32) -> Res {
    unsafe {
        let c = Z3_mk_context(Z3_mk_config());
        let s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
        let mut t = T { c, s, int: Z3_mk_int_sort(c), ints: Default::default(), bools: Default::default(), words: Default::default(), opaque: 0 };
        for e in cs {
            let b = t.boolean(*e);
            Z3_solver_assert(c, s, b);
        }
        // bytes used in several words, or alone
        let mut uses: FxMap<u32, u32> = Default::default();
        for w in t.words.keys() {
            for v in w {
                *uses.entry(*v).or_default() += 1;
            }
        }
        let words: Vec<(Vec<u32>, P)> = t.words.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (w, p) in &words {
            if w.len() > 1 && w.iter().any(|v| uses[v] > 1) {
                let mut sum = vec![];
                for (i, v) in w.iter().enumerate() {
                    let b = t.word(vec![*v]);
                    sum.push(t.scale(&pow2(i as u32 * 8), b));
                }
                Z3_solver_assert(c, s, Z3_mk_eq(c, *p, t.add(&sum)));
            }
        }
        let r = Z3_solver_check(c, s);
        let res = match r {
            -1 => Res::Unsat,
            1 => {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vals: FxMap<u32, u8> = Default::default();
                let mut ws: Vec<_> = t.words.iter().collect();
                // single bytes last: they are consistent with the words
                ws.sort_by_key(|(k, _)| std::cmp::Reverse(k.len()));
                for (w, p) in ws {
                    let mut r: P = std::ptr::null_mut();
                    if !Z3_model_eval(c, m, *p, true, &mut r) {
                        continue;
                    }
                    let x: u128 = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_string_lossy().parse().unwrap_or(0);
                    for (i, v) in w.iter().enumerate() {
                        vals.insert(*v, (x >> (8 * i)) as u8);
                    }
                }
                let mut vs: Vec<u32> = vec![];
                for e in cs {
                    vs.extend(vars_of(*e).iter());
                }
                vs.sort();
                vs.dedup();
                let top = vs.last().map_or(0, |v| *v as usize + 1);
                if top > 50_000_000 {
                    Res::Dont
                } else {
                    let mut model = vec![0u8; top];
                    for v in &vs {
                        model[*v as usize] = vals.get(v).copied().unwrap_or(0);
                    }
                    let mut memo = Default::default();
                    if cs.iter().all(|e| eval(*e, &model, &mut memo) == 1) {
                        Res::Model(vs.into_iter().map(|v| (v, model[v as usize])).collect())
                    } else {
                        Res::Dont
                    }
                }
            }
            _ => Res::Dont,
        };
        Z3_del_context(c);
        res
    }
}
