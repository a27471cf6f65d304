//! C11: joining and splitting byte arrays
use crate::sym;
use bitcoin_cash::{ByteArray, Function, Integer};

/// a part produced by a function, at its place in the whole
#[derive(Clone)]
struct Leaf {
    at: usize,
    len: usize,
    f: Function,
    arg: Option<Vec<u8>>,
}
#[derive(Clone)]
struct Val {
    a: ByteArray,
    data: Vec<u8>,
    leaves: Vec<Leaf>,
    whole: bool,
}
/// any function but Plain
fn function() -> Function {
    let t = sym::u8();
    sym::assume(t >= 1 && t <= Function::Reverse as u8);
    unsafe { std::mem::transmute(t) }
}
fn atom(kind: u64, n: u64) -> Val {
    let d = sym::vec(n);
    if kind == 0 {
        return Val { a: d.clone().into(), data: d, leaves: vec![], whole: false };
    }
    if kind == 2 {
        let i = sym::u8();
        let b = match ByteArray::from_int(Integer::from(i & 0x7f), Integer::from(2u8)) {
            Ok(b) => b,
            Err(_) => ByteArray::default(),
        };
        let data = vec![i & 0x7f, 0];
        return Val { a: b, data: data, leaves: vec![Leaf { at: 0, len: 2, f: Function::Num2Bin, arg: None }], whole: true };
    }
    let arg = sym::vec(1);
    apply(&Val { a: arg.clone().into(), data: arg, leaves: vec![], whole: false }, d)
}
fn apply(x: &Val, d: Vec<u8>) -> Val {
    let f = function();
    let leaves = vec![Leaf { at: 0, len: d.len(), f, arg: Some(x.data.clone()) }];
    Val { a: x.a.clone().apply_function(d.clone(), f), data: d, leaves, whole: true }
}
fn join(x: &Val, y: &Val, how: u64) -> Val {
    let a = match how {
        0 => x.a.clone().concat(y.a.clone()),
        1 => ByteArray::from_parts(vec![x.a.clone(), y.a.clone()]),
        _ => x.a.clone().concat_named(std::sync::Arc::new(std::borrow::Cow::Borrowed("j")), y.a.clone()),
    };
    let mut data = x.data.clone();
    data.extend_from_slice(&y.data);
    let mut leaves = x.leaves.clone();
    for l in &y.leaves {
        leaves.push(Leaf { at: l.at + x.data.len(), ..l.clone() });
    }
    Val { a, data, leaves, whole: false }
}
fn split(x: &Val, at: usize) -> Option<(Val, Val)> {
    match x.a.clone().split(at) {
        Err(_) => {
            sym::reach("split beyond the end");
            sym::check(at > x.data.len(), "an index within is accepted");
            None
        }
        Ok((l, r)) => {
            sym::reach("split");
            sym::check(at <= x.data.len(), "an index beyond the end is an error");
            if at > x.data.len() {
                return None;
            }
            let mut a = Val { a: l, data: x.data[..at].to_vec(), leaves: vec![], whole: false };
            let mut b = Val { a: r, data: x.data[at..].to_vec(), leaves: vec![], whole: false };
            if !x.whole {
                for l in &x.leaves {
                    if l.at + l.len <= at {
                        a.leaves.push(l.clone());
                    } else if l.at >= at {
                        b.leaves.push(Leaf { at: l.at - at, ..l.clone() });
                    } else {
                        sym::reach("function result cut");
                    }
                }
            }
            Some((a, b))
        }
    }
}
/// parts of plain compositions concatenate to the whole, at every depth; lists the parts
fn walk<'a>(a: &'a ByteArray, at: usize, out: &mut Vec<(usize, &'a ByteArray)>) {
    match a.preimage() {
        Some(p) if a.function() == Function::Plain => {
            let mut all = Vec::new();
            let mut o = at;
            for x in p {
                all.extend_from_slice(x.as_slice());
                walk(x, o, out);
                o += x.len();
            }
            sym::check(all.len() == a.len() && &all[..] == a.as_slice(), "parts concatenate to the whole");
        }
        _ => {
            if let Some(p) = a.preimage() {
                for x in p {
                    walk(x, 0, &mut Vec::new());
                }
            }
            out.push((at, a));
        }
    }
}
fn check(v: &Val) {
    sym::check(v.a.len() == v.data.len() && v.a.as_slice() == &v.data[..], "bytes");
    let mut parts = Vec::new();
    walk(&v.a, 0, &mut parts);
    for l in &v.leaves {
        if l.len == 0 {
            continue;
        }
        match parts.iter().find(|p| p.0 == l.at && p.1.len() == l.len) {
            Some(p) => {
                sym::check(p.1.function() == l.f, "an untouched part keeps its function");
                if let Some(arg) = &l.arg {
                    sym::check(p.1.preimage().map_or(false, |q| q.len() == 1 && q[0].as_slice() == &arg[..]), "and the function's argument");
                }
            }
            None => sym::check(false, "an untouched part stays a part"),
        }
    }
    for (o, p) in &parts {
        if p.len() > 0 && p.function() != Function::Plain && p.function() != Function::UnexpectedSplit {
            sym::check(v.leaves.iter().any(|l| l.at == *o && l.len == p.len()), "a piece does not claim a function it is not the result of");
        }
    }
}
fn pick(n: usize) -> usize {
    sym::concretize(sym::below(n as u64)) as usize
}
fn step(pool: &mut Vec<Val>, fresh: &mut usize, op: u64, how: u64) {
    // operands: the newest value and any value
    let last = pool.len() - 1 - pick(*fresh);
    match op {
        0 | 1 => {
            let o = pick(pool.len());
            let v = if op == 0 { join(&pool[last], &pool[o], how) } else { join(&pool[o], &pool[last], how) };
            pool.push(v);
            *fresh = 1;
        }
        2 => {
            let at = pick(pool[last].data.len() + 2);
            let v = pool[last].clone();
            if let Some((a, b)) = split(&v, at) {
                pool.push(a);
                pool.push(b);
                *fresh = 2;
            }
        }
        _ => {
            let v = apply(&pool[last], sym::vec(1));
            pool.push(v);
            *fresh = 1;
        }
    }
    let n = pool.len();
    for i in 0..*fresh {
        check(&pool[n - 1 - i]);
    }
}
harnesses! {
    // atoms of three kinds, then operations: joins, splits at any index, function applications
    fn c11_history(atoms, how, op1, op2, op3, op4) {
        let mut pool = vec![];
        let mut a = atoms;
        while a > 0 {
            let v = atom(a % 10 / 3, a % 10 % 3);
            check(&v);
            pool.push(v);
            a /= 10;
        }
        let mut fresh = pool.len();
        for op in [op1, op2, op3, op4] {
            if op > 0 {
                step(&mut pool, &mut fresh, op - 1, how);
            }
        }
    }
    // any index at all
    fn c11_split_any(n, m) {
        let x = join(&atom(0, n), &atom(1, m), 0);
        let at = sym::u64();
        sym::assume(at > n + m);
        sym::check(split(&x, at as usize).is_none(), "error");
        sym::check(x.leaves.len() == 1, "one function result");
    }
    // from_parts with any number of parts
    fn c11_parts(n, kinds) {
        let mut v = vec![];
        let mut data = vec![];
        let mut leaves = vec![];
        for i in 0..n {
            let a = atom(kinds >> (2 * i) & 3, 1 + i % 2);
            for l in &a.leaves {
                leaves.push(Leaf { at: data.len() + l.at, ..l.clone() });
            }
            data.extend_from_slice(&a.data);
            v.push(a.a);
        }
        let a = ByteArray::from_parts(v);
        let whole = n == 1;
        check(&Val { a, data, leaves, whole });
    }
}
