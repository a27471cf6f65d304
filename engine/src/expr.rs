//! Hash-consed bit-vector expressions with local simplification.
//! A width-1 expression doubles as a boolean.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Not(E),
    Bin(B, E, E),
    Cmp(C, E, E),
    Ite(E, E, E),
    Ext(u8, E),     // lo, base; width from table
    Cat(E, E),      // hi, lo
    Sext(E),
}

type Table = (Rc<Vec<E>>, Rc<Vec<u128>>);
pub struct Ctx {
    pub nodes: Vec<(N, u8)>,
    map: FxMap<(N, u8), E>,
    kz: FxMap<E, u128>,
    vars: FxMap<E, Rc<Vec<u32>>>,
    tt: FxMap<E, Option<(Rc<Vec<E>>, u64)>>,
    tab: FxMap<E, Option<Table>>,
    pub nvars: u32,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx{nodes:vec![],map:Default::default(),kz:Default::default(),vars:Default::default(),tt:Default::default(),tab:Default::default(),nvars:0});
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

fn mk(n: N, w: u8) -> E {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(e) = c.map.get(&(n, w)) {
            return *e;
        }
        let e = E(c.nodes.len() as u32);
        c.nodes.push((n, w));
        c.map.insert((n, w), e);
        e
    })
}
pub fn node(e: E) -> N {
    CTX.with(|c| c.borrow().nodes[e.0 as usize].0)
}
pub fn width(e: E) -> u8 {
    CTX.with(|c| c.borrow().nodes[e.0 as usize].1)
}
pub fn nodew(e: E) -> (N, u8) {
    CTX.with(|c| c.borrow().nodes[e.0 as usize])
}
pub fn num_nodes() -> usize {
    CTX.with(|c| c.borrow().nodes.len())
}
pub fn konst(v: u128, w: u8) -> E {
    mk(N::Const(v & mask(w)), w)
}
pub fn new_var() -> E {
    let id = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.nvars += 1;
        c.nvars - 1
    });
    mk(N::Var(id), 8)
}
pub fn var(id: u32) -> E {
    mk(N::Var(id), 8)
}
pub fn num_vars() -> u32 {
    CTX.with(|c| c.borrow().nvars)
}
pub fn as_const(e: E) -> Option<u128> {
    match node(e) {
        N::Const(v) => Some(v),
        _ => None,
    }
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fals() -> E {
    konst(0, 1)
}

/// mask of bits known to be zero
pub fn known_zero(e: E) -> u128 {
    if let N::Const(v) = node(e) {
        return !v & mask(width(e));
    }
    if let Some(k) = CTX.with(|c| c.borrow().kz.get(&e).copied()) {
        return k;
    }
    let (n, w) = nodew(e);
    let m = mask(w);
    let k = match n {
        N::Const(v) => !v & m,
        N::Var(_) | N::Cmp(..) | N::Not(_) => 0,
        N::Cat(h, l) => {
            let lw = width(l);
            (known_zero(h) << lw) | known_zero(l)
        }
        N::Ext(lo, b) => (known_zero(b) >> lo) & m,
        N::Sext(a) => {
            let k = known_zero(a);
            let aw = width(a);
            if k >> (aw - 1) & 1 == 1 {
                k | (m & !mask(aw))
            } else {
                k
            }
        }
        N::Ite(_, a, b) => known_zero(a) & known_zero(b),
        N::Bin(B::And, a, b) => known_zero(a) | known_zero(b),
        N::Bin(B::Or, a, b) | N::Bin(B::Xor, a, b) => known_zero(a) & known_zero(b),
        N::Bin(B::Add, a, b) => {
            let (ka, kb) = (known_zero(a), known_zero(b));
            let (ma, mb) = (!ka & m, !kb & m);
            let hi = match ma.checked_add(mb) {
                Some(s) if s <= m => {
                    // bits above the highest bit of s are zero
                    let bits = 128 - s.leading_zeros();
                    m & !mask_u(bits)
                }
                _ => 0,
            };
            let tz = (!ka).trailing_zeros().min((!kb).trailing_zeros()).min(w as u32);
            hi | mask_u(tz)
        }
        N::Bin(B::Mul, a, b) => {
            let (ka, kb) = (known_zero(a), known_zero(b));
            let (ma, mb) = (!ka & m, !kb & m);
            let hi = match ma.checked_mul(mb) {
                Some(s) if s <= m => m & !mask_u(128 - s.leading_zeros()),
                _ => 0,
            };
            let tz = ((!ka).trailing_zeros() + (!kb).trailing_zeros()).min(w as u32);
            hi | mask_u(tz)
        }
        N::Bin(B::UDiv, a, _) => {
            let ma = !known_zero(a) & m;
            m & !mask_u(128 - ma.leading_zeros())
        }
        N::Bin(B::URem, _, b) => match node(b) {
            N::Const(v) if v > 0 => m & !mask_u(128 - (v - 1).leading_zeros()),
            _ => 0,
        },
        N::Bin(B::LShr, a, _) => {
            let ma = !known_zero(a) & m;
            m & !mask_u(128 - ma.leading_zeros())
        }
        N::Bin(..) => 0,
    };
    CTX.with(|c| c.borrow_mut().kz.insert(e, k));
    k
}
fn mask_u(b: u32) -> u128 {
    if b >= 128 {
        !0
    } else {
        (1u128 << b) - 1
    }
}
pub fn umax(e: E) -> u128 {
    !known_zero(e) & mask(width(e))
}

pub fn vars_of(e: E) -> Rc<Vec<u32>> {
    if let Some(v) = CTX.with(|c| c.borrow().vars.get(&e).cloned()) {
        return v;
    }
    let r: Rc<Vec<u32>> = match node(e) {
        N::Const(_) => Rc::new(vec![]),
        N::Var(i) => Rc::new(vec![i]),
        N::Not(a) | N::Ext(_, a) | N::Sext(a) => vars_of(a),
        N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => union(vars_of(a), vars_of(b)),
        N::Ite(c, a, b) => union(vars_of(c), union(vars_of(a), vars_of(b))),
    };
    CTX.with(|c| c.borrow_mut().vars.insert(e, r.clone()));
    r
}
fn union(a: Rc<Vec<u32>>, b: Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(&a, &b) {
        return b;
    }
    if b.is_empty() {
        return a;
    }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            v.push(a[i]);
            i += 1
        } else if i >= a.len() || b[j] < a[i] {
            v.push(b[j]);
            j += 1
        } else {
            v.push(a[i]);
            i += 1;
            j += 1
        }
    }
    if v.len() == a.len() {
        return a;
    }
    if v.len() == b.len() {
        return b;
    }
    Rc::new(v)
}

pub fn not(a: E) -> E {
    let (n, w) = nodew(a);
    match n {
        N::Const(v) => konst(!v, w),
        N::Not(x) => x,
        N::Cmp(C::Ult, x, y) => cmp(C::Ule, y, x),
        N::Cmp(C::Ule, x, y) => cmp(C::Ult, y, x),
        N::Cmp(C::Slt, x, y) => cmp(C::Sle, y, x),
        N::Cmp(C::Sle, x, y) => cmp(C::Slt, y, x),
        _ => mk(N::Not(a), w),
    }
}
pub fn and1(a: E, b: E) -> E {
    bin(B::And, a, b)
}
pub fn or1(a: E, b: E) -> E {
    bin(B::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    cmp(C::Eq, a, b)
}

pub fn fold_bin(op: B, a: u128, b: u128, w: u8) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext128(a, w);
            (if b >= w as u128 {
                x >> 127
            } else {
                x >> b
            }) as u128
        }
    };
    r & m
}

fn segs(e: E, out: &mut Vec<(E, u8)>) {
    // low to high segments
    match node(e) {
        N::Cat(h, l) => {
            segs(l, out);
            segs(h, out);
        }
        _ => out.push((e, width(e))),
    }
}
fn splice(a: E, b: E) -> Option<E> {
    // a | b where bits known disjoint by segments
    let w = width(a);
    if known_zero(a) | known_zero(b) != mask(w) {
        return None;
    }
    let (mut sa, mut sb) = (vec![], vec![]);
    segs(a, &mut sa);
    segs(b, &mut sb);
    let mut cuts = vec![];
    let mut p = 0;
    for s in &sa {
        p += s.1;
        cuts.push(p)
    }
    p = 0;
    for s in &sb {
        p += s.1;
        cuts.push(p)
    }
    cuts.sort();
    cuts.dedup();
    let mut lo = 0u8;
    let mut parts = vec![];
    for c in cuts {
        let w = c - lo;
        let (x, y) = (extract(a, lo, w), extract(b, lo, w));
        let z = konst(0, w);
        if x == z {
            parts.push(y)
        } else if y == z {
            parts.push(x)
        } else {
            return None;
        }
        lo = c;
    }
    let mut r = parts[0];
    for p in &parts[1..] {
        r = concat(*p, r);
    }
    Some(r)
}

fn is_const_tree(e: E, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    match node(e) {
        N::Const(_) => true,
        N::Ite(_, a, b) => is_const_tree(a, budget) && is_const_tree(b, budget),
        _ => false,
    }
}
fn map_tree(e: E, f: &dyn Fn(u128) -> E) -> E {
    match node(e) {
        N::Const(v) => f(v),
        N::Ite(c, a, b) => {
            let x = map_tree(a, f);
            let y = map_tree(b, f);
            ite(c, x, y)
        }
        _ => unreachable!(),
    }
}
fn const_tree(e: E) -> bool {
    matches!(node(e), N::Ite(..)) && is_const_tree(e, &mut 140)
}

pub fn bin(op: B, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (na, nb) = (node(a), node(b));
    if let (N::Const(x), N::Const(y)) = (na, nb) {
        return konst(fold_bin(op, x, y, w), w);
    }
    let m = mask(w);
    use B::*;
    // canonical: constant on the right
    if matches!(op, Add | Mul | And | Or | Xor) {
        if matches!(na, N::Const(_)) || (!matches!(nb, N::Const(_)) && b < a) {
            return bin_c(op, b, a, w, m);
        }
    }
    bin_c(op, a, b, w, m)
}
fn bin_c(op: B, a: E, b: E, w: u8, m: u128) -> E {
    use B::*;
    let (na, nb) = (node(a), node(b));
    if let N::Const(k) = nb {
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if k == 0 => return a,
            And if k == m => return a,
            And if k == 0 => return b,
            Or if k == m => return b,
            Xor if k == m => return not(a),
            Mul if k == 0 => return b,
            Mul if k == 1 => return a,
            UDiv | SDiv if k == 1 => return a,
            URem if k == 1 => return konst(0, w),
            _ => {}
        }
        match op {
            Sub => return bin(Add, a, konst(k.wrapping_neg(), w)),
            Add => {
                if let N::Bin(Add, x, y) = na {
                    if let N::Const(k2) = node(y) {
                        return bin(Add, x, konst(k.wrapping_add(k2), w));
                    }
                }
                // nothing is added to the low part
                if let N::Cat(h, l) = na {
                    let lw = width(l);
                    if k & mask(lw) == 0 {
                        let x = bin(Add, h, konst(k >> lw, w - lw));
                        return concat(x, l);
                    }
                }
            }
            And => {
                if known_zero(a) & k == 0 && false {
                    return a;
                }
                // mask made of contiguous runs -> segments
                if k & !known_zero(a) & m == 0 {
                    return konst(0, w);
                }
                if (!k & m) & !known_zero(a) == 0 {
                    return a;
                }
                if let N::Sext(c) = na {
                    if width(c) == 1 {
                        return flip(c, konst(0, w), k);
                    }
                }
                // split into runs (few)
                let mut runs = 0;
                let mut i = 0u8;
                let mut parts: Vec<(u8, u8, bool)> = vec![];
                while i < w {
                    let bit = k >> i & 1;
                    let mut j = i;
                    while j < w && k >> j & 1 == bit {
                        j += 1
                    }
                    parts.push((i, j - i, bit == 1));
                    runs += 1;
                    i = j;
                }
                if runs <= 3 {
                    let mut r: Option<E> = None;
                    for (lo, pw, one) in parts {
                        let x = if one { extract(a, lo, pw) } else { konst(0, pw) };
                        r = Some(match r {
                            None => x,
                            Some(r) => concat(x, r),
                        });
                    }
                    return r.unwrap();
                }
                if let N::Bin(And, x, y) = na {
                    if let N::Const(k2) = node(y) {
                        return bin(And, x, konst(k & k2, w));
                    }
                }
            }
            Or => {
                // set bits become constants
                if let N::Bin(Or, x, y) = na {
                    if let N::Const(k2) = node(y) {
                        return bin(Or, x, konst(k | k2, w));
                    }
                }
            }
            Xor => {
                if let N::Bin(Xor, x, y) = na {
                    if let N::Const(k2) = node(y) {
                        return bin(Xor, x, konst(k ^ k2, w));
                    }
                }
            }
            Shl => {
                if k >= w as u128 {
                    return konst(0, w);
                }
                let k = k as u8;
                return concat(extract(a, 0, w - k), konst(0, k));
            }
            LShr => {
                if k >= w as u128 {
                    return konst(0, w);
                }
                let k = k as u8;
                return zext(extract(a, k, w - k), w);
            }
            AShr => {
                let k = if k >= w as u128 { w - 1 } else { k as u8 };
                return sext(extract(a, k, w - k), w);
            }
            Mul if k.is_power_of_two() => {
                return bin(Shl, a, konst(k.trailing_zeros() as u128, w));
            }
            UDiv if k.is_power_of_two() => {
                return bin(LShr, a, konst(k.trailing_zeros() as u128, w));
            }
            URem if k.is_power_of_two() => {
                return bin(And, a, konst(k - 1, w));
            }
            SDiv | SRem if k < 1 << (w - 1) && known_zero(a) >> (w - 1) & 1 == 1 => {
                return bin(if op == SDiv { UDiv } else { URem }, a, b);
            }
            _ => {}
        }
        if matches!(op, UDiv | URem) && umax(a) < k {
            return if op == UDiv { konst(0, w) } else { a };
        }
        // narrow division of zero-extended values
        if matches!(op, UDiv | URem) {
            let mx = umax(a);
            let need = (128 - mx.leading_zeros()).max(128 - k.leading_zeros()) as u8;
            if need < w && need > 0 {
                return zext(bin(op, extract(a, 0, need), konst(k, need)), w);
            }
        }
        if const_tree(a) {
            return map_tree(a, &|x| konst(fold_bin(op, x, k, w), w));
        }
        if chooses(a) && matches!(op, Add | Sub | Mul | UDiv | URem | SDiv | SRem) {
            if let Some(e) = two_trees(a, b, &|x, y| fold_bin(op, x, y, w), w) {
                return e;
            }
        }
    }
    if let N::Const(k) = na {
        // minus a bit
        if op == Sub && k == 0 && known_zero(b) | 1 == m && w > 1 {
            return sext(extract(b, 0, 1), w);
        }
        match op {
            Shl | LShr | UDiv | URem if k == 0 => return a,
            _ => {}
        }
        if const_tree(b) {
            return map_tree(b, &|x| konst(fold_bin(op, k, x, w), w));
        }
    }
    if a == b {
        match op {
            Sub | Xor => return konst(0, w),
            And | Or => return a,
            _ => {}
        }
    }
    if op == Xor && w == 1 {
        return xor1(a, b);
    }
    if op == Xor {
        for (x, y) in [(a, b), (b, a)] {
            if let Some((c, k)) = mask_of(y) {
                return flip(c, x, k);
            }
            if let N::Ite(c, p, q) = node(y) {
                if let (N::Const(p), N::Const(q)) = (node(p), node(q)) {
                    let r = flip(c, x, p ^ q);
                    return bin(Xor, r, konst(q, w));
                }
            }
        }
    }
    match op {
        Or | Xor => {
            if let Some(r) = splice(a, b) {
                return r;
            }
        }
        Add => {
            if known_zero(a) | known_zero(b) == m {
                if let Some(r) = splice(a, b) {
                    return r;
                }
            }
            // (x + k) + y -> (x + y) + k
            if !matches!(nb, N::Const(_)) {
                if let N::Bin(Add, x, y) = na {
                    if let N::Const(_) = node(y) {
                        let s = bin(Add, x, b);
                        return bin(Add, s, y);
                    }
                }
                if let N::Bin(Add, x, y) = nb {
                    if let N::Const(_) = node(y) {
                        let s = bin(Add, a, x);
                        return bin(Add, s, y);
                    }
                }
                // x + (y - x)
                if let N::Bin(Sub, p, q) = nb {
                    if q == a {
                        return p;
                    }
                }
                if let N::Bin(Sub, p, q) = na {
                    if q == b {
                        return p;
                    }
                }
            }
        }
        Sub => {
            if let N::Bin(Add, x, y) = na {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
                if let N::Const(_) = node(y) {
                    let s = bin(Sub, x, b);
                    return bin(Add, s, y);
                }
            }
            if let N::Bin(Add, x, y) = nb {
                if let N::Const(k) = node(y) {
                    let s = bin(Sub, a, x);
                    return bin(Add, s, konst(k.wrapping_neg(), w));
                }
            }
        }
        And if w == 1 => {
            if nb == N::Not(a) || na == N::Not(b) {
                return konst(0, 1);
            }
        }
        _ => {}
    }
    if op == Or && w == 1 && (nb == N::Not(a) || na == N::Not(b)) {
        return konst(1, 1);
    }
    let e = mk(N::Bin(op, a, b), w);
    if w == 1 && matches!(op, And | Or) {
        return simp1(e);
    }
    if w > 1 {
        if let Some(e) = two_trees(a, b, &|x, y| fold_bin(op, x, y, w), w) {
            return e;
        }
    }
    e
}

/// sums of bits modulo two as sorted chains without repetitions
fn xor1(a: E, b: E) -> E {
    fn flat(mut e: E, out: &mut Vec<E>, odd: &mut bool) {
        loop {
            match node(e) {
                N::Const(v) => {
                    *odd ^= v == 1;
                    return;
                }
                N::Not(x) => {
                    *odd = !*odd;
                    e = x;
                }
                N::Bin(B::Xor, x, y) => {
                    flat(y, out, odd);
                    e = x;
                }
                _ => {
                    out.push(e);
                    return;
                }
            }
        }
    }
    let (mut v, mut odd) = (vec![], false);
    flat(a, &mut v, &mut odd);
    flat(b, &mut v, &mut odd);
    v.sort();
    let mut r: Option<E> = None;
    let mut i = 0;
    while i < v.len() {
        if i + 1 < v.len() && v[i] == v[i + 1] {
            i += 2;
            continue;
        }
        r = Some(match r {
            None => v[i],
            Some(r) => mk(N::Bin(B::Xor, r, v[i]), 1),
        });
        i += 1;
    }
    match (r, odd) {
        (None, o) => konst(o as u128, 1),
        (Some(r), false) => r,
        (Some(r), true) => not(r),
    }
}
/// x with the bits of k flipped if c
fn flip(c: E, x: E, k: u128) -> E {
    let w = width(x);
    let mut r: Option<E> = None;
    let mut i = 0;
    while i < w {
        let one = k >> i & 1 == 1;
        let mut n = 1;
        while !one && i + n < w && k >> (i + n) & 1 == 0 {
            n += 1;
        }
        let mut b = extract(x, i, n);
        if one {
            b = xor1(b, c);
        }
        r = Some(match r {
            None => b,
            Some(r) => concat(b, r),
        });
        i += n;
    }
    r.unwrap()
}
/// a value that is some constant if a bit is set and zero otherwise
fn mask_of(e: E) -> Option<(E, u128)> {
    let mut s = vec![];
    segs(e, &mut s);
    let (mut c, mut k, mut lo) = (None, 0u128, 0u8);
    for (x, w) in s {
        match node(x) {
            N::Const(0) => {}
            N::Sext(b) if width(b) == 1 => {
                if c.is_some() && c != Some(b) {
                    return None;
                }
                c = Some(b);
                k |= mask(w) << lo;
            }
            _ if w == 1 => {
                if c.is_some() && c != Some(x) {
                    return None;
                }
                c = Some(x);
                k |= 1 << lo;
            }
            _ => return None,
        }
        lo += w;
    }
    c.map(|c| (c, k))
}
/// truth table of a bit over at most six others
fn truth(e: E) -> Option<(Rc<Vec<E>>, u64)> {
    if let Some(r) = CTX.with(|c| c.borrow().tt.get(&e).cloned()) {
        return r;
    }
    let r = truth_of(e);
    CTX.with(|c| c.borrow_mut().tt.insert(e, r.clone()));
    r
}
const COL: [u64; 6] = [0xaaaa_aaaa_aaaa_aaaa, 0xcccc_cccc_cccc_cccc, 0xf0f0_f0f0_f0f0_f0f0, 0xff00_ff00_ff00_ff00, 0xffff_0000_ffff_0000, 0xffff_ffff_0000_0000];
fn truth_of(e: E) -> Option<(Rc<Vec<E>>, u64)> {
    let two = |a: E, b: E, f: &dyn Fn(u64, u64) -> u64| {
        let (x, y) = (truth(a)?, truth(b)?);
        let at = join_atoms(&x.0, &y.0)?;
        let t = f(spread(&x, &at), spread(&y, &at));
        Some(support(at, t))
    };
    match node(e) {
        N::Const(v) => Some((Rc::new(vec![]), if v == 1 { !0 } else { 0 })),
        N::Not(a) => truth(a).map(|(at, t)| (at, !t)),
        N::Bin(B::And, a, b) => two(a, b, &|x, y| x & y),
        N::Bin(B::Or, a, b) => two(a, b, &|x, y| x | y),
        N::Ite(c, a, b) => {
            let (z, x, y) = (truth(c)?, truth(a)?, truth(b)?);
            let at = join_atoms(&join_atoms(&x.0, &y.0)?, &z.0)?;
            let (c, x, y) = (spread(&z, &at), spread(&x, &at), spread(&y, &at));
            Some(support(at, c & x | !c & y))
        }
        _ => Some((Rc::new(vec![e]), COL[0])),
    }
}
fn join_atoms(a: &Rc<Vec<E>>, b: &Rc<Vec<E>>) -> Option<Rc<Vec<E>>> {
    if a == b || b.is_empty() {
        return Some(a.clone());
    }
    if a.is_empty() {
        return Some(b.clone());
    }
    let mut v: Vec<E> = a.iter().chain(b.iter()).copied().collect();
    v.sort();
    v.dedup();
    if v.len() > 6 {
        return None;
    }
    Some(Rc::new(v))
}
fn spread(x: &(Rc<Vec<E>>, u64), at: &Rc<Vec<E>>) -> u64 {
    if x.0 == *at || x.0.is_empty() {
        return x.1;
    }
    let pos: Vec<usize> = x.0.iter().map(|a| at.iter().position(|b| a == b).unwrap()).collect();
    let mut t = 0;
    for r in 0..64u32 {
        let mut q = 0;
        for (i, p) in pos.iter().enumerate() {
            q |= (r >> p & 1) << i;
        }
        t |= (x.1 >> q & 1) << r;
    }
    t
}
/// only the atoms that matter
fn support(at: Rc<Vec<E>>, t: u64) -> (Rc<Vec<E>>, u64) {
    let keep: Vec<usize> = (0..at.len()).filter(|i| (t & COL[*i]) >> (1 << i) != t & !COL[*i]).collect();
    if keep.len() == at.len() {
        return (at, t);
    }
    let mut u = 0;
    for r in 0..64u32 {
        let mut q = 0;
        for (i, k) in keep.iter().enumerate() {
            q |= (r >> i & 1) << k;
        }
        u |= (t >> q & 1) << r;
    }
    (Rc::new(keep.iter().map(|i| at[*i]).collect()), u)
}
/// a bit that is constant or equals another one or its complement
fn simp1(e: E) -> E {
    match truth(e) {
        Some((at, t)) if at.is_empty() => konst((t & 1) as u128, 1),
        Some((at, t)) if at.len() == 1 => {
            if t == COL[0] {
                at[0]
            } else {
                not(at[0])
            }
        }
        _ => e,
    }
}
/// values of an expression under every assignment of the at most six bits it is made of
fn table(e: E) -> Option<Table> {
    if let Some(r) = CTX.with(|c| c.borrow().tab.get(&e).cloned()) {
        return r;
    }
    let r = table_of(e);
    CTX.with(|c| c.borrow_mut().tab.insert(e, r.clone()));
    r
}
fn table_of(e: E) -> Option<Table> {
    let (n, w) = nodew(e);
    if w == 1 {
        let (at, t) = truth(e)?;
        let v = (0..1u32 << at.len()).map(|r| (t >> r & 1) as u128).collect();
        return Some((at, Rc::new(v)));
    }
    match n {
        N::Const(v) => Some((Rc::new(vec![]), Rc::new(vec![v]))),
        N::Not(a) => {
            let (at, v) = table(a)?;
            Some((at, Rc::new(v.iter().map(|x| !x & mask(w)).collect())))
        }
        N::Sext(a) => {
            let (at, v) = table(a)?;
            let aw = width(a);
            Some((at, Rc::new(v.iter().map(|x| sext128(*x, aw) as u128 & mask(w)).collect())))
        }
        N::Ext(lo, a) => {
            let (at, v) = table(a)?;
            Some((at, Rc::new(v.iter().map(|x| x >> lo & mask(w)).collect())))
        }
        N::Cat(h, l) => {
            let lw = width(l);
            table2(&table(h)?, &table(l)?, &|x, y| x << lw | y)
        }
        N::Bin(op, a, b) => table2(&table(a)?, &table(b)?, &|x, y| fold_bin(op, x, y, w)),
        N::Ite(c, a, b) => {
            let (c, x, y) = (table(c)?, table(a)?, table(b)?);
            let at = join_atoms(&join_atoms(&x.0, &y.0)?, &c.0)?;
            let (pc, px, py) = (places(&c.0, &at), places(&x.0, &at), places(&y.0, &at));
            let v = (0..1u32 << at.len()).map(|r| if c.1[pick(r, &pc)] == 1 { x.1[pick(r, &px)] } else { y.1[pick(r, &py)] }).collect();
            Some((at, Rc::new(v)))
        }
        _ => None,
    }
}
fn places(a: &[E], at: &[E]) -> Vec<usize> {
    a.iter().map(|x| at.iter().position(|y| x == y).unwrap()).collect()
}
fn pick(r: u32, p: &[usize]) -> usize {
    p.iter().enumerate().fold(0, |q, (i, p)| q | ((r >> p & 1) as usize) << i)
}
fn table2(x: &Table, y: &Table, f: &dyn Fn(u128, u128) -> u128) -> Option<Table> {
    let at = join_atoms(&x.0, &y.0)?;
    let (px, py) = (places(&x.0, &at), places(&y.0, &at));
    let v = (0..1u32 << at.len()).map(|r| f(x.1[pick(r, &px)], y.1[pick(r, &py)])).collect();
    Some((at, Rc::new(v)))
}
/// contains a choice
fn chooses(e: E) -> bool {
    match node(e) {
        N::Ite(..) => width(e) > 1,
        N::Cat(h, l) => chooses(h) || chooses(l),
        _ => false,
    }
}
/// an operation on choices between constants
fn two_trees(a: E, b: E, f: &dyn Fn(u128, u128) -> u128, w: u8) -> Option<E> {
    if !chooses(a) && !chooses(b) {
        return None;
    }
    let (at, v) = table2(&table(a)?, &table(b)?, f)?;
    Some(from_table(&at, &v, w))
}
fn from_table(at: &[E], vals: &[u128], w: u8) -> E {
    if vals.iter().all(|v| *v == vals[0]) {
        return konst(vals[0], w);
    }
    let h = vals.len() / 2;
    let i = at.len() - 1;
    let lo = from_table(&at[..i], &vals[..h], w);
    let hi = from_table(&at[..i], &vals[h..], w);
    ite(at[i], hi, lo)
}
/// value of a tree of choices under an assignment of its atoms
fn tree_eval(e: E, at: &[E], row: u32) -> u128 {
    if let Some(i) = at.iter().position(|a| *a == e) {
        return (row >> i & 1) as u128;
    }
    match node(e) {
        N::Const(v) => v,
        N::Not(a) => 1 ^ tree_eval(a, at, row),
        N::Ite(c, a, b) => {
            if tree_eval(c, at, row) == 1 {
                tree_eval(a, at, row)
            } else {
                tree_eval(b, at, row)
            }
        }
        N::Bin(B::And, a, b) => tree_eval(a, at, row) & tree_eval(b, at, row),
        N::Bin(B::Or, a, b) => tree_eval(a, at, row) | tree_eval(b, at, row),
        _ => unreachable!(),
    }
}
fn tree_atoms(e: E, at: &mut Vec<E>, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    let (n, w) = nodew(e);
    match n {
        N::Const(_) => true,
        N::Not(a) if w == 1 => tree_atoms(a, at, budget),
        N::Ite(c, a, b) => tree_atoms(c, at, budget) && tree_atoms(a, at, budget) && tree_atoms(b, at, budget),
        N::Bin(B::And | B::Or, a, b) if w == 1 => tree_atoms(a, at, budget) && tree_atoms(b, at, budget),
        _ => {
            if w != 1 {
                return false;
            }
            if !at.contains(&e) {
                if at.len() >= 6 {
                    return false;
                }
                at.push(e);
            }
            true
        }
    }
}
/// a choice between constants in which every bit is one of the deciding bits
fn bits_of_tree(c: E, a: E, b: E) -> Option<E> {
    let w = width(a);
    if !is_const_tree(a, &mut 140) || !is_const_tree(b, &mut 140) {
        return None;
    }
    let mut at = vec![];
    let mut budget = 600;
    if !(tree_atoms(c, &mut at, &mut budget) && tree_atoms(a, &mut at, &mut budget) && tree_atoms(b, &mut at, &mut budget)) {
        return None;
    }
    if at.len() < 2 {
        return None;
    }
    let rows = 1u32 << at.len();
    let vals: Vec<u128> = (0..rows).map(|r| if tree_eval(c, &at, r) == 1 { tree_eval(a, &at, r) } else { tree_eval(b, &at, r) }).collect();
    let mut bits = vec![];
    for i in 0..w {
        let f = |r: u32| vals[r as usize] >> i & 1;
        if (0..rows).all(|r| f(r) == f(0)) {
            bits.push(konst(f(0), 1));
            continue;
        }
        let j = (0..at.len()).find(|j| (0..rows).all(|r| f(r) == (r >> j & 1) as u128) || (0..rows).all(|r| f(r) != (r >> j & 1) as u128))?;
        bits.push(if f(0) == 0 { at[j] } else { not(at[j]) });
    }
    let mut r = bits[0];
    for b in &bits[1..] {
        r = concat(*b, r);
    }
    Some(r)
}

pub fn extract(e: E, lo: u8, w: u8) -> E {
    let (n, ew) = nodew(e);
    debug_assert!(w > 0 && lo as u32 + w as u32 <= ew as u32, "extract {} {} of {}", lo, w, ew);
    if lo == 0 && w == ew {
        return e;
    }
    match n {
        N::Const(v) => konst(v >> lo, w),
        N::Ext(l2, b) => extract(b, l2 + lo, w),
        N::Cat(h, l) => {
            let lw = width(l);
            if lo >= lw {
                extract(h, lo - lw, w)
            } else if lo + w <= lw {
                extract(l, lo, w)
            } else {
                let x = extract(l, lo, lw - lo);
                let y = extract(h, 0, lo + w - lw);
                concat(y, x)
            }
        }
        N::Not(a) => not(extract(a, lo, w)),
        N::Sext(a) => {
            let aw = width(a);
            if lo + w <= aw {
                extract(a, lo, w)
            } else if lo >= aw {
                sext(extract(a, aw - 1, 1), w)
            } else if lo == 0 {
                sext(a, w)
            } else {
                sext(extract(a, lo, aw - lo), w)
            }
        }
        N::Ite(c, a, b) => {
            if matches!(node(a), N::Const(_)) || matches!(node(b), N::Const(_)) {
                let x = extract(a, lo, w);
                let y = extract(b, lo, w);
                return ite(c, x, y);
            }
            mk(N::Ext(lo, e), w)
        }
        N::Bin(B::Or | B::And | B::Xor, a, b) if matches!(node(b), N::Const(_)) => {
            let op = match n {
                N::Bin(o, ..) => o,
                _ => unreachable!(),
            };
            let x = extract(a, lo, w);
            let y = extract(b, lo, w);
            bin(op, x, y)
        }
        // keep one full product of two unknowns (result and overflow test share it)
        N::Bin(B::Mul, a, b) if ew <= 64 && !matches!(node(a), N::Const(_)) && !matches!(node(b), N::Const(_)) => mk(N::Ext(lo, e), w),
        N::Bin(op @ (B::Add | B::Mul | B::Sub), a, b) if lo == 0 => {
            // low bits only depend on low bits
            let x = extract(a, 0, w);
            let y = extract(b, 0, w);
            bin(op, x, y)
        }
        _ => {
            if (known_zero(e) >> lo) & mask(w) == mask(w) {
                return konst(0, w);
            }
            mk(N::Ext(lo, e), w)
        }
    }
}

pub fn concat(h: E, l: E) -> E {
    let (nh, wh) = nodew(h);
    let (nl, wl) = nodew(l);
    let w = wh + wl;
    assert!(w as u32 == wh as u32 + wl as u32 && w <= 128);
    match (nh, nl) {
        (N::Const(a), N::Const(b)) => return konst((a << wl) | b, w),
        (N::Ext(lh, bh), N::Ext(ll, bl)) if bh == bl && lh == ll + wl => return extract(bh, ll, w),
        (N::Ext(lh, bh), _) if bh == l && lh == wl => return extract(bh, 0, w),
        // the low bits of a sum have been narrowed
        (N::Ext(lh, bh), N::Bin(B::Add | B::Sub | B::Mul, ..)) if lh == wl && matches!(node(bh), N::Bin(B::Add | B::Sub | B::Mul, ..)) && extract(bh, 0, wl) == l => return extract(bh, 0, w),
        (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) if c1 == c2 => {
            let x = concat(a1, a2);
            let y = concat(b1, b2);
            return ite(c1, x, y);
        }
        (N::Const(_), N::Ite(c, a, b)) if matches!(node(a), N::Const(_)) && matches!(node(b), N::Const(_)) => {
            let x = concat(h, a);
            let y = concat(h, b);
            return ite(c, x, y);
        }
        (N::Cat(h1, h2), _) => {
            let r = concat(h2, l);
            return concat(h1, r);
        }
        (_, N::Cat(m, l2)) => {
            // try to merge h with m
            match (nh, node(m)) {
                (N::Const(_), N::Const(_)) => {
                    let hm = concat(h, m);
                    return concat(hm, l2);
                }
                (N::Ext(lh, bh), N::Ext(lm, bm)) if bh == bm && lh == lm + width(m) => {
                    let hm = concat(h, m);
                    return concat(hm, l2);
                }
                (N::Ext(lh, bh), _) if bh == m && lh == width(m) => {
                    let hm = concat(h, m);
                    return concat(hm, l2);
                }
                (N::Ite(c1, ..), N::Ite(c2, ..)) if c1 == c2 => {
                    let hm = concat(h, m);
                    return concat(hm, l2);
                }
                _ => {}
            }
        }
        _ => {}
    }
    mk(N::Cat(h, l), w)
}
pub fn zext(e: E, w: u8) -> E {
    let ew = width(e);
    if ew == w {
        return e;
    }
    concat(konst(0, w - ew), e)
}
pub fn sext(e: E, w: u8) -> E {
    let (n, ew) = nodew(e);
    if ew == w {
        return e;
    }
    if known_zero(e) >> (ew - 1) & 1 == 1 {
        return zext(e, w);
    }
    match n {
        N::Const(v) => konst(sext128(v, ew) as u128, w),
        N::Sext(a) => sext(a, w),
        N::Ite(c, a, b) if matches!(node(a), N::Const(_)) && matches!(node(b), N::Const(_)) => {
            let x = sext(a, w);
            let y = sext(b, w);
            ite(c, x, y)
        }
        _ => mk(N::Sext(e), w),
    }
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    match node(c) {
        N::Const(v) => return if v == 1 { a } else { b },
        N::Not(x) => return ite(x, b, a),
        _ => {}
    }
    if let N::Ite(c2, x, _) = node(a) {
        if c2 == c {
            return ite(c, x, b);
        }
    }
    if let N::Ite(c2, _, y) = node(b) {
        if c2 == c {
            return ite(c, a, y);
        }
    }
    if w == 1 {
        match (node(a), node(b)) {
            (N::Const(1), N::Const(_)) => return c,
            (N::Const(0), N::Const(_)) => return not(c),
            (N::Const(1), _) => return or1(c, b),
            (N::Const(0), _) => return and1(not(c), b),
            (_, N::Const(0)) => return and1(c, a),
            (_, N::Const(1)) => return or1(not(c), a),
            _ => {}
        }
    }
    // one side is the other with some bits flipped
    if w > 1 {
        for (x, y, d) in [(a, b, c), (b, a, not(c))] {
            if let N::Bin(B::Xor, p, q) = node(x) {
                if let (true, N::Const(k)) = (p == y, node(q)) {
                    return flip(d, y, k);
                }
            }
        }
        if w <= 64 {
            if let Some(r) = bits_of_tree(c, a, b) {
                return r;
            }
        }
    }
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if let N::Ite(d, x, y) = node(b) {
        if x == a {
            let cd = or1(c, d);
            return ite(cd, a, y);
        }
    }
    // split common constant high part
    if let (N::Cat(h1, l1), N::Cat(h2, l2)) = (node(a), node(b)) {
        if h1 == h2 {
            let r = ite(c, l1, l2);
            return concat(h1, r);
        }
        if l1 == l2 {
            let r = ite(c, h1, h2);
            return concat(r, l1);
        }
    }
    let e = mk(N::Ite(c, a, b), w);
    if w == 1 {
        return simp1(e);
    }
    e
}

pub fn fold_cmp(op: C, a: u128, b: u128, w: u8) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sext128(a, w) < sext128(b, w),
        C::Sle => sext128(a, w) <= sext128(b, w),
    }
}
fn top_zero(e: E) -> bool {
    known_zero(e) >> (width(e) - 1) & 1 == 1
}

pub fn cmp(op: C, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if a == b {
        return konst(matches!(op, C::Eq | C::Ule | C::Sle) as u128, 1);
    }
    let (na, nb) = (node(a), node(b));
    if let (N::Const(x), N::Const(y)) = (na, nb) {
        return konst(fold_cmp(op, x, y, w) as u128, 1);
    }
    match op {
        C::Eq => {
            if let N::Const(_) = na {
                return cmp(C::Eq, b, a);
            }
            if let N::Const(k) = nb {
                if k & known_zero(a) != 0 {
                    return fals();
                }
                if w == 1 {
                    return if k == 1 { a } else { not(a) };
                }
                match na {
                    N::Cat(h, l) => {
                        let lw = width(l);
                        let c2 = eq(l, konst(k, lw));
                        if as_const(c2) == Some(0) {
                            return c2;
                        }
                        let c1 = eq(h, konst(k >> lw, w - lw));
                        return and1(c1, c2);
                    }
                    N::Bin(B::Add, x, y) => {
                        if let N::Const(k2) = node(y) {
                            return eq(x, konst(k.wrapping_sub(k2), w));
                        }
                    }
                    N::Bin(B::Xor, x, y) => {
                        if let N::Const(k2) = node(y) {
                            return eq(x, konst(k ^ k2, w));
                        }
                        if k == 0 {
                            return eq(x, y);
                        }
                    }
                    N::Bin(B::Sub, x, y) if k == 0 => return eq(x, y),
                    N::Bin(B::Or, x, y) if k == 0 => {
                        let p = eq(x, b);
                        let q = eq(y, b);
                        return and1(p, q);
                    }
                    N::Not(x) => return eq(x, konst(!k, w)),
                    N::Sext(x) => {
                        let xw = width(x);
                        let kk = konst(k, xw);
                        if konst(sext128(k & mask(xw), xw) as u128, w) == b {
                            return eq(x, kk);
                        }
                        return fals();
                    }
                    N::Ite(..) if const_tree(a) => return map_tree(a, &|x| konst((x == k) as u128, 1)),
                    N::Ite(c, x, y) => {
                        let cx = as_const(x).map(|v| v == k);
                        let cy = as_const(y).map(|v| v == k);
                        match (cx, cy) {
                            (Some(p), Some(q)) => return if p == q { konst(p as u128, 1) } else if p { c } else { not(c) },
                            (Some(true), None) => return or1(c, eq(y, b)),
                            (Some(false), None) => return and1(not(c), eq(y, b)),
                            (None, Some(true)) => return or1(not(c), eq(x, b)),
                            (None, Some(false)) => return and1(c, eq(x, b)),
                            _ => {}
                        }
                    }
                    _ => {}
                }
            } else {
                if w == 1 {
                    return not(bin(B::Xor, a, b));
                }
                if let (N::Cat(h1, l1), N::Cat(h2, l2)) = (na, nb) {
                    if width(l1) == width(l2) {
                        let p = eq(h1, h2);
                        let q = eq(l1, l2);
                        return and1(p, q);
                    }
                }
                if let (N::Bin(B::Add, x, y), N::Bin(B::Add, p, q)) = (na, nb) {
                    if x == p {
                        return eq(y, q);
                    }
                    if y == q {
                        return eq(x, p);
                    }
                }
                // disjoint by known bits is rare; skip
                if b < a {
                    return mk(N::Cmp(C::Eq, b, a), 1);
                }
            }
        }
        C::Slt | C::Sle => {
            if top_zero(a) && top_zero(b) {
                return cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b);
            }
            if let (N::Sext(x), N::Sext(y)) = (na, nb) {
                if width(x) == width(y) {
                    return cmp(op, x, y);
                }
            }
            if let (N::Sext(x), N::Const(k)) = (na, nb) {
                let xw = width(x);
                let kk = sext128(k, w);
                let (mn, mx) = (-(1i128 << (xw - 1)), (1i128 << (xw - 1)) - 1);
                if kk > mx {
                    return tru();
                }
                if kk < mn {
                    return fals();
                }
                return cmp(op, x, konst(k, xw));
            }
            if let (N::Const(k), N::Sext(x)) = (na, nb) {
                let xw = width(x);
                let kk = sext128(k, w);
                let (mn, mx) = (-(1i128 << (xw - 1)), (1i128 << (xw - 1)) - 1);
                if kk > mx {
                    return fals();
                }
                if kk < mn {
                    return tru();
                }
                return cmp(op, konst(k, xw), x);
            }
            if let N::Const(k) = nb {
                // x <s 0 -> sign bit
                if op == C::Slt && k == 0 {
                    return extract(a, w - 1, 1);
                }
                if const_tree(a) {
                    return map_tree(a, &|x| konst(fold_cmp(op, x, k, w) as u128, 1));
                }
            }
            if let N::Const(k) = na {
                if op == C::Slt && k == mask(w) {
                    // -1 <s x
                    return not(extract(b, w - 1, 1));
                }
                if op == C::Sle && k == 0 {
                    return not(extract(b, w - 1, 1));
                }
                if const_tree(b) {
                    return map_tree(b, &|x| konst(fold_cmp(op, k, x, w) as u128, 1));
                }
            }
            if op == C::Sle && nb == N::Const(mask(w)) {
                return extract(a, w - 1, 1);
            }
        }
        C::Ult | C::Ule => {
            if let N::Const(k) = nb {
                if op == C::Ult && k == 0 {
                    return fals();
                }
                let mx = umax(a);
                if (op == C::Ult && mx < k) || (op == C::Ule && mx <= k) {
                    return tru();
                }
                if op == C::Ult && k == 1 {
                    return eq(a, konst(0, w));
                }
                if op == C::Ule && k == 0 {
                    return eq(a, b);
                }
                if op == C::Ule {
                    return cmp(C::Ult, a, konst(k + 1, w)); // k+1 does not wrap since mx>k
                }
                if const_tree(a) {
                    return map_tree(a, &|x| konst(fold_cmp(op, x, k, w) as u128, 1));
                }
                if let N::Cat(h, l) = na {
                    if let N::Const(hc) = node(h) {
                        let lw = width(l);
                        let kh = k >> lw;
                        return if hc < kh {
                            tru()
                        } else if hc > kh {
                            fals()
                        } else {
                            cmp(op, l, konst(k, lw))
                        };
                    }
                    // low part all inside
                    let lw = width(l);
                    if k & mask(lw) == 0 {
                        return cmp(op, h, konst(k >> lw, w - lw));
                    }
                }
            }
            if let N::Const(k) = na {
                if op == C::Ult && k == mask(w) {
                    return fals();
                }
                let mx = umax(b);
                if (op == C::Ult && k >= mx) || (op == C::Ule && k > mx) {
                    if op == C::Ult || k > mx {
                        return fals();
                    }
                }
                if op == C::Ule && k == 0 {
                    return tru();
                }
                if op == C::Ult && k == 0 {
                    return not(eq(b, a));
                }
                if op == C::Ule {
                    return cmp(C::Ult, konst(k - 1, w), b);
                }
                if const_tree(b) {
                    return map_tree(b, &|x| konst(fold_cmp(op, k, x, w) as u128, 1));
                }
                if let N::Cat(h, l) = nb {
                    if let N::Const(hc) = node(h) {
                        let lw = width(l);
                        let kh = k >> lw;
                        return if kh < hc {
                            tru()
                        } else if kh > hc {
                            fals()
                        } else {
                            cmp(op, konst(k, lw), l)
                        };
                    }
                }
            }
            if let (N::Cat(h1, l1), N::Cat(h2, l2)) = (na, nb) {
                if h1 == h2 && width(l1) == width(l2) {
                    return cmp(op, l1, l2);
                }
            }
            if w == 1 {
                // a<b : !a & b ; a<=b : !a | b
                return if op == C::Ult { and1(not(a), b) } else { or1(not(a), b) };
            }
        }
    }
    if let Some(e) = two_trees(a, b, &|x, y| fold_cmp(op, x, y, w) as u128, 1) {
        return e;
    }
    mk(N::Cmp(op, a, b), 1)
}

/// Evaluate under an assignment of the 8-bit variables.
pub fn eval(e: E, model: &[u8], memo: &mut FxMap<E, u128>) -> u128 {
    let (n, w) = nodew(e);
    match n {
        N::Const(v) => return v,
        N::Var(i) => return *model.get(i as usize).unwrap_or(&0) as u128,
        _ => {}
    }
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    let r = match n {
        N::Not(a) => !eval(a, model, memo) & mask(w),
        N::Bin(op, a, b) => {
            let x = eval(a, model, memo);
            if w == 1 && op == B::And && x == 0 {
                0
            } else if w == 1 && op == B::Or && x == 1 {
                1
            } else {
                let y = eval(b, model, memo);
                fold_bin(op, x, y, w)
            }
        }
        N::Cmp(op, a, b) => {
            let x = eval(a, model, memo);
            let y = eval(b, model, memo);
            fold_cmp(op, x, y, width(a)) as u128
        }
        N::Ite(c, a, b) => {
            if eval(c, model, memo) == 1 {
                eval(a, model, memo)
            } else {
                eval(b, model, memo)
            }
        }
        N::Ext(lo, a) => (eval(a, model, memo) >> lo) & mask(w),
        N::Cat(h, l) => {
            let x = eval(h, model, memo);
            let y = eval(l, model, memo);
            (x << width(l)) | y
        }
        N::Sext(a) => sext128(eval(a, model, memo), width(a)) as u128 & mask(w),
        _ => unreachable!(),
    };
    memo.insert(e, r);
    r
}
/// readable form, for diagnosis
pub fn show(e: E, depth: u32) -> String {
    let (n, w) = nodew(e);
    if depth == 0 {
        return format!("#{}", e.0);
    }
    let s = |x| show(x, depth - 1);
    match n {
        N::Const(v) => format!("{:#x}:{}", v, w),
        N::Var(i) => format!("v{}", i),
        N::Not(a) => format!("~{}", s(a)),
        N::Bin(o, a, b) => format!("({:?}{} {} {})", o, w, s(a), s(b)),
        N::Cmp(o, a, b) => format!("({:?} {} {})", o, s(a), s(b)),
        N::Ite(a, b, c) => format!("(ite {} {} {})", s(a), s(b), s(c)),
        N::Ext(lo, a) => format!("{}[{}+:{}]", s(a), lo, w),
        N::Cat(a, b) => format!("{{{},{}}}", s(a), s(b)),
        N::Sext(a) => format!("(sext{} {})", w, s(a)),
    }
}

/// rebuilds with some subterms replaced
pub fn subst(e: E, map: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
    if let Some(r) = map.get(&e) {
        return *r;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let (n, w) = nodew(e);
    let r = match n {
        N::Const(_) | N::Var(_) => e,
        N::Not(a) => not(subst(a, map, memo)),
        N::Bin(o, a, b) => {
            let (x, y) = (subst(a, map, memo), subst(b, map, memo));
            bin(o, x, y)
        }
        N::Cmp(o, a, b) => {
            let (x, y) = (subst(a, map, memo), subst(b, map, memo));
            cmp(o, x, y)
        }
        N::Ite(c, a, b) => {
            let (c, x, y) = (subst(c, map, memo), subst(a, map, memo), subst(b, map, memo));
            ite(c, x, y)
        }
        N::Ext(lo, a) => extract(subst(a, map, memo), lo, w),
        N::Cat(a, b) => {
            let (x, y) = (subst(a, map, memo), subst(b, map, memo));
            concat(x, y)
        }
        N::Sext(a) => sext(subst(a, map, memo), w),
    };
    memo.insert(e, r);
    r
}
/// the operands of a node
pub fn kids(e: E) -> Vec<E> {
    match node(e) {
        N::Const(_) | N::Var(_) => vec![],
        N::Not(a) | N::Ext(_, a) | N::Sext(a) => vec![a],
        N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => vec![a, b],
        N::Ite(a, b, c) => vec![a, b, c],
    }
}
/// every distinct subterm
pub fn subterms(es: &[E]) -> Vec<E> {
    let mut seen: std::collections::HashSet<E> = Default::default();
    let mut todo = es.to_vec();
    let mut out = vec![];
    while let Some(e) = todo.pop() {
        if seen.insert(e) {
            out.push(e);
            todo.extend(kids(e));
        }
    }
    out
}
/// contains a product, quotient or remainder of unknowns
pub fn nonlinear(e: E) -> bool {
    subterms(&[e]).iter().any(|x| match node(*x) {
        N::Bin(B::Mul | B::UDiv | B::SDiv | B::URem | B::SRem, a, b) => !matches!(node(a), N::Const(_)) && !matches!(node(b), N::Const(_)),
        _ => false,
    })
}
