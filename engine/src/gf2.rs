//! Decision procedure for conjunctions and disjunctions of linear equations over bits: elimination with case splits.
//! Terms that are not sums of input bits count as unknown bits of their own, so "unsatisfiable" is always right and a
//! satisfying assignment is only reported after evaluating the constraints under it.
use crate::expr::*;

#[derive(Clone, PartialEq, Eq)]
struct Lin {
    bits: Vec<u64>, // bit 0 is the constant
}
impl Lin {
    fn add(&mut self, o: &Lin) {
        if self.bits.len() < o.bits.len() {
            self.bits.resize(o.bits.len(), 0);
        }
        for (a, b) in self.bits.iter_mut().zip(o.bits.iter()) {
            *a ^= b;
        }
        while self.bits.len() > 1 && *self.bits.last().unwrap() == 0 {
            self.bits.pop();
        }
    }
    fn flip(&mut self) {
        self.bits[0] ^= 1;
    }
    fn top(&self) -> usize {
        for (i, w) in self.bits.iter().enumerate().rev() {
            if *w != 0 {
                return i * 64 + 63 - w.leading_zeros() as usize;
            }
        }
        0
    }
    fn bit(&self, i: usize) -> bool {
        self.bits.get(i / 64).map_or(false, |w| w >> (i % 64) & 1 == 1)
    }
}
#[derive(Clone, Default)]
struct Basis {
    rows: FxMap<usize, Lin>, // by leading unknown
}
impl Basis {
    fn reduce(&self, l: &mut Lin) {
        // from the top down
        let mut i = l.bits.len() * 64;
        while i > 1 {
            i -= 1;
            if l.bit(i) {
                if let Some(r) = self.rows.get(&i) {
                    l.add(r);
                }
            }
        }
    }
}
#[derive(Default)]
pub struct Gf2 {
    idx: FxMap<E, usize>,
    atoms: Vec<E>,
    lins: FxMap<E, Option<Lin>>,
    eqs: FxMap<E, E>,
    has: FxMap<E, bool>,
    pub used: u64,
}
pub enum Res {
    Unsat,
    Model(Vec<(u32, u8)>),
    Dont,
}
impl Gf2 {
    /// contains a sum of at least three bits
    pub fn worth(&mut self, e: E) -> bool {
        if let Some(r) = self.has.get(&e) {
            return *r;
        }
        let r = match node(e) {
            N::Bin(B::Xor, a, _) if width(e) == 1 && matches!(node(a), N::Bin(B::Xor, _, _)) => true,
            _ => kids(e).into_iter().any(|k| self.worth(k)),
        };
        self.has.insert(e, r);
        r
    }
    fn atom(&mut self, e: E) -> Lin {
        let n = self.atoms.len();
        let i = *self.idx.entry(e).or_insert(n + 1);
        if i == n + 1 {
            self.atoms.push(e);
        }
        let mut bits = vec![0; i / 64 + 1];
        bits[i / 64] |= 1 << (i % 64);
        Lin { bits }
    }
    /// None for a formula
    fn lin(&mut self, e: E) -> Option<Lin> {
        if let Some(l) = self.lins.get(&e) {
            return l.clone();
        }
        let r = match node(e) {
            N::Const(v) => Some(Lin { bits: vec![v as u64] }),
            N::Not(a) => self.lin(a).map(|mut l| {
                l.flip();
                l
            }),
            N::Bin(B::Xor, a, b) => match (self.lin(a), self.lin(b)) {
                (Some(mut x), Some(y)) => {
                    x.add(&y);
                    Some(x)
                }
                _ => None,
            },
            N::Ext(lo, x) if matches!(node(x), N::Bin(B::Xor, ..)) => {
                let f = self.xor_bit(e);
                self.lin(f)
            }
            N::Bin(B::And | B::Or, ..) | N::Ite(..) => None,
            N::Cmp(C::Eq, a, _) if width(a) > 1 && width(a) <= 64 => None,
            _ => Some(self.atom(e)),
        };
        self.lins.insert(e, r.clone());
        r
    }
    /// a bit of a bitwise sum
    fn xor_bit(&mut self, e: E) -> E {
        if let N::Ext(lo, x) = node(e) {
            if let N::Bin(B::Xor, a, b) = node(x) {
                return bin(B::Xor, extract(a, lo, 1), extract(b, lo, 1));
            }
        }
        unreachable!()
    }
    fn bits_eq(&mut self, e: E, a: E, b: E) -> E {
        if let Some(r) = self.eqs.get(&e) {
            return *r;
        }
        let mut r = tru();
        for i in 0..width(a) {
            let x = not(bin(B::Xor, extract(a, i, 1), extract(b, i, 1)));
            r = and1(r, x);
        }
        self.eqs.insert(e, r);
        r
    }
    /// truth under the equations so far
    fn ev(&mut self, e: E, b: &Basis, memo: &mut FxMap<E, Option<bool>>) -> Option<bool> {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = if let Some(mut l) = self.lin(e) {
            b.reduce(&mut l);
            if l.top() == 0 {
                Some(l.bit(0))
            } else {
                None
            }
        } else {
            match node(e) {
                N::Not(a) => self.ev(a, b, memo).map(|x| !x),
                N::Bin(B::And, x, y) => match (self.ev(x, b, memo), self.ev(y, b, memo)) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                },
                N::Bin(B::Or, x, y) => match (self.ev(x, b, memo), self.ev(y, b, memo)) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                },
                N::Ite(c, x, y) => match self.ev(c, b, memo) {
                    Some(true) => self.ev(x, b, memo),
                    Some(false) => self.ev(y, b, memo),
                    None => match (self.ev(x, b, memo), self.ev(y, b, memo)) {
                        (p, q) if p == q => p,
                        _ => None,
                    },
                },
                N::Bin(B::Xor, x, y) => match (self.ev(x, b, memo), self.ev(y, b, memo)) {
                    (Some(p), Some(q)) => Some(p != q),
                    _ => None,
                },
                N::Ext(..) => {
                    let f = self.xor_bit(e);
                    self.ev(f, b, memo)
                }
                N::Cmp(C::Eq, x, y) => {
                    let f = self.bits_eq(e, x, y);
                    if f == e { None } else { self.ev(f, b, memo) }
                }
                _ => None,
            }
        };
        memo.insert(e, r);
        r
    }
    fn go(&mut self, mut todo: Vec<(E, bool)>, mut b: Basis, left: &mut u32) -> Option<Option<Basis>> {
        if *left == 0 {
            return None;
        }
        *left -= 1;
        let mut open: Vec<(E, bool)> = vec![];
        loop {
            let mut memo = Default::default();
            let mut changed = false;
            while let Some((e, pos)) = todo.pop() {
                if let Some(mut l) = self.lin(e) {
                    if pos {
                        l.flip(); // as an equation l = 0
                    }
                    b.reduce(&mut l);
                    let t = l.top();
                    if t == 0 {
                        if l.bit(0) {
                            return Some(None);
                        }
                    } else {
                        b.rows.insert(t, l);
                        changed = true;
                        memo = Default::default();
                    }
                    continue;
                }
                match (node(e), pos) {
                    (N::Not(a), _) => todo.push((a, !pos)),
                    (N::Bin(B::And, x, y), true) | (N::Bin(B::Or, x, y), false) => {
                        todo.push((x, pos));
                        todo.push((y, pos));
                    }
                    (N::Cmp(C::Eq, x, y), _) => {
                        let f = self.bits_eq(e, x, y);
                        if f == e {
                            return None;
                        }
                        todo.push((f, pos));
                    }
                    (N::Ext(..), _) => {
                        let f = self.xor_bit(e);
                        todo.push((f, pos));
                    }
                    (N::Bin(B::Xor, x, y), _) => match (self.ev(x, &b, &mut memo), self.ev(y, &b, &mut memo)) {
                        (Some(p), Some(q)) => {
                            if (p != q) != pos {
                                return Some(None);
                            }
                        }
                        (Some(p), None) => todo.push((y, p != pos)),
                        (None, Some(q)) => todo.push((x, q != pos)),
                        (None, None) => open.push((e, pos)),
                    },
                    (N::Bin(_, x, y), _) => {
                        // a disjunction
                        match (self.ev(x, &b, &mut memo), self.ev(y, &b, &mut memo)) {
                            (Some(v), _) if v == pos => {}
                            (_, Some(v)) if v == pos => {}
                            (Some(_), Some(_)) => return Some(None),
                            (Some(_), None) => todo.push((y, pos)),
                            (None, Some(_)) => todo.push((x, pos)),
                            _ => open.push((e, pos)),
                        }
                    }
                    (N::Ite(c, x, y), _) => match self.ev(c, &b, &mut memo) {
                        Some(true) => todo.push((x, pos)),
                        Some(false) => todo.push((y, pos)),
                        None => match self.ev(e, &b, &mut memo) {
                            Some(v) if v == pos => {}
                            Some(_) => return Some(None),
                            None => open.push((e, pos)),
                        },
                    },
                    _ => return None,
                }
            }
            if !changed || open.is_empty() {
                break;
            }
            todo = std::mem::take(&mut open);
        }
        let (e, pos) = match open.pop() {
            None => return Some(Some(b)),
            Some(x) => x,
        };
        let (first, second) = match node(e) {
            N::Bin(B::Xor, x, y) => (vec![(x, true), (y, !pos)], vec![(x, false), (y, pos)]),
            N::Bin(_, x, y) => (vec![(x, pos)], vec![(x, !pos), (y, pos)]),
            N::Ite(c, x, y) => (vec![(c, true), (x, pos)], vec![(c, false), (y, pos)]),
            _ => return None,
        };
        for extra in [first, second] {
            let mut t = open.clone();
            t.extend(extra);
            match self.go(t, b.clone(), left)? {
                Some(b) => return Some(Some(b)),
                None => {}
            }
        }
        Some(None)
    }
    pub fn check(&mut self, cs: &[E]) -> Res {
        let mut left = 3000;
        let todo = cs.iter().rev().map(|e| (*e, true)).collect();
        match self.go(todo, Basis::default(), &mut left) {
            None => Res::Dont,
            Some(None) => {
                self.used += 1;
                Res::Unsat
            }
            Some(Some(b)) => {
                // free unknowns are zero; every row then gives its leading unknown from the lower ones
                let mut tops: Vec<usize> = b.rows.keys().copied().collect();
                tops.sort();
                let mut val = vec![false; self.atoms.len() + 1];
                val[0] = true;
                for t in tops {
                    let r = &b.rows[&t];
                    let mut v = false;
                    for i in 0..t {
                        v ^= r.bit(i) && val[i];
                    }
                    val[t] = v;
                }
                let mut vs: Vec<u32> = vec![];
                for e in cs {
                    vs.extend(vars_of(*e).iter());
                }
                vs.sort();
                vs.dedup();
                let mut model: FxMap<u32, u8> = vs.iter().map(|v| (*v, 0)).collect();
                for (i, a) in self.atoms.iter().enumerate() {
                    if !val[i + 1] {
                        continue;
                    }
                    let (base, lo) = match node(*a) {
                        N::Ext(lo, x) => (x, lo),
                        _ => (*a, 0),
                    };
                    if let N::Var(v) = node(base) {
                        if let Some(m) = model.get_mut(&v) {
                            *m |= 1 << lo;
                        }
                    }
                }
                let n = vs.last().map_or(0, |v| *v as usize + 1);
                if n > 1 << 24 {
                    return Res::Dont;
                }
                let mut flat = vec![0u8; n];
                for (v, x) in &model {
                    flat[*v as usize] = *x;
                }
                let mut memo = Default::default();
                if cs.iter().all(|e| eval(*e, &flat, &mut memo) == 1) {
                    self.used += 1;
                    return Res::Model(vs.iter().map(|v| (*v, model[v])).collect());
                }
                Res::Dont
            }
        }
    }
}
