//! C24: scripts written as functions
use crate::{refm, sym};
use bitcoin_cash::Opcode::*;
use bitcoin_cash::*;
use std::borrow::Cow;

/// a stack item
#[derive(Clone)]
enum It {
    I(i64),
    B(bool),
    A(Vec<u8>),
}
use It::*;
impl It {
    fn bytes(&self) -> Vec<u8> {
        match self {
            I(n) => refm::script_num(*n),
            B(b) => vec![1u8; *b as usize],
            A(a) => a.clone(),
        }
    }
    fn int(&self) -> i64 {
        match self {
            I(n) => *n,
            B(b) => *b as i64,
            A(a) => {
                let (neg, m) = refm::num(a);
                let m = m as i64;
                if neg { -m } else { m }
            }
        }
    }
    fn truth(&self) -> bool {
        match self {
            I(n) => *n != 0,
            B(b) => *b,
            A(a) => refm::num(a).1 != 0,
        }
    }
}
fn eq(x: &It, y: &It) -> bool {
    match (x, y) {
        (A(a), A(b)) => a == b,
        (A(a), o) | (o, A(a)) => *a == o.bytes(),
        (I(a), I(b)) => a == b,
        (B(a), B(b)) => a == b,
        (I(a), B(b)) | (B(b), I(a)) => *a == *b as i64,
    }
}
fn pushed(op: &Op) -> Option<It> {
    Some(match op {
        Op::PushInteger(n) => I(n.value() as i64),
        Op::PushBoolean(b) => B(*b),
        Op::PushByteArray { array, .. } => A(array.to_vec()),
        _ => return None,
    })
}
fn array(s: &mut Vec<It>) -> Vec<u8> {
    s.pop().unwrap().bytes()
}
fn int(s: &mut Vec<It>) -> i64 {
    s.pop().unwrap().int()
}
/// script execution; the names a script has given must be those of the values it put there
fn exec(ops: &[TaggedOp], s: &mut Vec<It>, alt: &mut Vec<It>, named: &[(&str, It)]) -> bool {
    let mut conds: Vec<bool> = vec![];
    for op in ops {
        let on = conds.iter().all(|c| *c);
        if let Op::Code(c) = op.op {
            match c {
                OP_IF | OP_NOTIF => {
                    let t = on && s.pop().unwrap().truth();
                    conds.push(if on { t == (c == OP_IF) } else { false });
                    continue;
                }
                OP_ELSE => {
                    let t = conds.pop().unwrap();
                    conds.push(!t);
                    continue;
                }
                OP_ENDIF => {
                    conds.pop().unwrap();
                    continue;
                }
                _ => {}
            }
        }
        if !on {
            continue;
        }
        match &op.op {
            Op::Code(c) => {
                let n = s.len();
                match c {
                    OP_VERIFY => {
                        if !s.pop().unwrap().truth() {
                            return false;
                        }
                    }
                    OP_DUP => s.push(s[n - 1].clone()),
                    OP_2DUP => s.extend_from_within(n - 2..),
                    OP_3DUP => s.extend_from_within(n - 3..),
                    OP_2OVER => s.extend_from_within(n - 4..n - 2),
                    OP_DROP => drop(s.pop().unwrap()),
                    OP_2DROP => s.truncate(n - 2),
                    OP_NIP => drop(s.remove(n - 2)),
                    OP_OVER => s.push(s[n - 2].clone()),
                    OP_TUCK => s.insert(n - 2, s[n - 1].clone()),
                    OP_SWAP => s.swap(n - 1, n - 2),
                    OP_ROT => s[n - 3..].rotate_left(1),
                    OP_2SWAP => s[n - 4..].rotate_left(2),
                    OP_2ROT => s[n - 6..].rotate_left(2),
                    OP_PICK => {
                        let d = int(s) as usize;
                        s.push(s[n - 2 - d].clone())
                    }
                    OP_ROLL => {
                        let d = int(s) as usize;
                        let x = s.remove(n - 2 - d);
                        s.push(x)
                    }
                    OP_DEPTH => s.push(I(n as i64)),
                    OP_SIZE => {
                        let l = s[n - 1].bytes().len();
                        s.push(I(l as i64))
                    }
                    OP_CAT => {
                        let (b, mut a) = (array(s), array(s));
                        a.extend(b);
                        s.push(A(a))
                    }
                    OP_SPLIT => {
                        let (k, mut a) = (int(s), array(s));
                        let b = a.split_off(k as usize);
                        s.push(A(a));
                        s.push(A(b))
                    }
                    OP_EQUAL | OP_EQUALVERIFY => {
                        let (b, a) = (s.pop().unwrap(), s.pop().unwrap());
                        let e = eq(&a, &b);
                        if *c == OP_EQUAL {
                            s.push(B(e))
                        } else if !e {
                            return false;
                        }
                    }
                    OP_1ADD | OP_1SUB | OP_NEGATE => {
                        let a = int(s);
                        s.push(I(match c {
                            OP_1ADD => a + 1,
                            OP_1SUB => a - 1,
                            _ => -a,
                        }))
                    }
                    OP_NOT | OP_0NOTEQUAL => {
                        let a = int(s);
                        s.push(B((a == 0) == (*c == OP_NOT)))
                    }
                    OP_ADD | OP_SUB | OP_MIN | OP_MAX => {
                        let (b, a) = (int(s), int(s));
                        s.push(I(match c {
                            OP_ADD => a + b,
                            OP_SUB => a - b,
                            OP_MIN => a.min(b),
                            _ => a.max(b),
                        }))
                    }
                    OP_LESSTHAN | OP_GREATERTHANOREQUAL | OP_NUMEQUAL | OP_BOOLAND | OP_BOOLOR => {
                        let (b, a) = (int(s), int(s));
                        s.push(B(match c {
                            OP_LESSTHAN => a < b,
                            OP_GREATERTHANOREQUAL => a >= b,
                            OP_NUMEQUAL => a == b,
                            OP_BOOLAND => (a != 0) & (b != 0),
                            _ => (a != 0) | (b != 0),
                        }))
                    }
                    OP_WITHIN => {
                        let (hi, lo, x) = (int(s), int(s), int(s));
                        s.push(B(lo <= x && x < hi))
                    }
                    OP_TOALTSTACK => alt.push(s.pop().unwrap()),
                    OP_FROMALTSTACK => s.push(alt.pop().unwrap()),
                    OP_CHECKLOCKTIMEVERIFY | OP_CHECKSEQUENCEVERIFY => {}
                    _ => {
                        sym::check(false, "an operation no script of the family has");
                        return false;
                    }
                }
            }
            o => match pushed(o) {
                Some(i) => s.push(i),
                None => {
                    sym::check(false, "not an operation");
                    return false;
                }
            },
        }
        check_names(&op.pushed_names, s, named);
        check_names(&op.alt_pushed_names, alt, named);
    }
    sym::check(conds.is_empty(), "conditionals are closed");
    true
}
fn check_names(names: &Option<Vec<Option<Cow<'static, str>>>>, s: &[It], named: &[(&str, It)]) {
    if let Some(names) = names {
        sym::check(names.len() <= s.len(), "as many items as names");
        let base = s.len() - names.len();
        for (i, name) in names.iter().enumerate() {
            if let Some(name) = name {
                let mut ok = false;
                for (n, v) in named {
                    if *n == name.as_ref() {
                        ok |= eq(v, &s[base + i]);
                    }
                }
                sym::reach("named item");
                sym::check(ok, "the item is the value of the name it is tagged with");
            }
        }
    }
}
/// what the operations written are
enum W {
    C(Opcode),
    P(It),
}
use W::*;
struct Case {
    inputs: Vec<TaggedOp>,
    given: Vec<It>,
    ops: Vec<TaggedOp>,
    written: Vec<W>,
    named: Vec<(&'static str, It)>,
    /// None: the script fails
    want: Option<Vec<It>>,
    alt: Vec<It>,
}
fn decide(c: Case) {
    // the operations are those written, in order
    sym::check(c.ops.len() == c.written.len(), "one operation for each written");
    for (o, w) in c.ops.iter().zip(&c.written) {
        match (&o.op, w) {
            (Op::Code(a), C(b)) => sym::check(a == b, "the operation written"),
            (o, P(v)) => match (pushed(o), v) {
                (Some(I(a)), I(b)) => sym::check(a == *b, "the number written"),
                (Some(B(a)), B(b)) => sym::check(a == *b, "the boolean written"),
                (Some(A(a)), A(b)) => sym::check(a == *b, "the bytes written"),
                _ => sym::check(false, "the kind of value written"),
            },
            _ => sym::check(false, "the operation written"),
        }
    }
    // the inputs are pushed in the order declared
    let (mut s, mut alt) = (vec![], vec![]);
    exec(&c.inputs, &mut s, &mut alt, &c.named);
    sym::check(s.len() == c.given.len(), "one push for each input");
    for (a, b) in s.iter().zip(&c.given) {
        sym::check(eq(a, b), "inputs in order");
    }
    // and the script computes the function
    let ok = exec(&c.ops, &mut s, &mut alt, &c.named);
    sym::check(ok == c.want.is_some(), "fails exactly when the function does");
    if let Some(want) = c.want {
        sym::reach("executed");
        sym::check(s.len() == want.len(), "as many items as the function leaves");
        for (a, b) in s.iter().zip(&want) {
            sym::check(eq(a, b), "the items the function leaves");
        }
        sym::check(alt.len() == c.alt.len(), "as many items on the altstack");
        for (a, b) in alt.iter().zip(&c.alt) {
            sym::check(eq(a, b), "the items on the altstack");
        }
    } else {
        sym::reach("thorough: failed");
    }
}
fn bytes(n: u64) -> Vec<u8> {
    sym::vec(n)
}
/// a number scripts can calculate with without overflow
fn number() -> i32 {
    let n = sym::i32();
    sym::assume(n > -0x4000_0000 && n < 0x3fff_ffff);
    n
}
fn cat(p: &[&Vec<u8>]) -> Vec<u8> {
    p.iter().flat_map(|x| x.iter().copied()).collect()
}
fn vals(v: &[&It]) -> Vec<It> {
    v.iter().map(|x| (*x).clone()).collect()
}

/// items moved and copied, a parameter used in the middle
mod moves {
    use super::*;
    struct Params {
        key: ByteArray,
    }
    #[bitcoin_cash::script(Inputs)]
    fn f(p: Params, a: ByteArray, b: ByteArray, c: ByteArray) {
        OP_ROT(a, b, c);
        let ca = OP_CAT(c, a);
        OP_SWAP(b, ca);
        let key = p.key;
        let bk = OP_CAT(b, key);
        OP_TUCK(ca, bk);
        OP_OVER(ca, bk);
        OP_NIP(bk, ca);
        let (__, copy) = OP_DUP(ca);
        let all = OP_CAT(ca, copy);
        OP_ROT;
        OP_DROP(bk);
    }
    pub fn case(n: u64) -> Case {
        let (a, b, c, k) = (bytes(n), bytes(2), bytes(n + 1), bytes(n));
        let i = Inputs { a: a.clone().into(), b: b.clone().into(), c: c.clone().into() };
        let (ca, bk) = (cat(&[&c, &a]), cat(&[&b, &k]));
        let all = cat(&[&ca, &ca]);
        Case {
            inputs: i.ops().into_owned(),
            ops: Params { key: k.clone().into() }.f().ops().into_owned(),
            written: vec![C(OP_ROT), C(OP_CAT), C(OP_SWAP), P(A(k.clone())), C(OP_CAT), C(OP_TUCK), C(OP_OVER), C(OP_NIP), C(OP_DUP), C(OP_CAT), C(OP_ROT), C(OP_DROP)],
            named: vec![("a", A(a.clone())), ("b", A(b.clone())), ("c", A(c.clone())), ("ca", A(ca.clone())), ("key", A(k)), ("bk", A(bk.clone())), ("copy", A(ca.clone())), ("all", A(all.clone()))],
            given: vec![A(a), A(b), A(c)],
            want: Some(vec![A(ca), A(all)]),
            alt: vec![],
        }
    }
}
/// items found by their depth
mod depths {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs)]
    fn f(_: Params, a: ByteArray, b: ByteArray, c: ByteArray, d: i32) {
        let depth_b = depth_of(b);
        OP_PICK(depth_b);
        let k = 4;
        OP_ROLL(k);
        let ba = OP_CAT(b, a);
        OP_ROT;
        depth_of(b);
        let again = OP_PICK;
        let two = 2;
        let last = OP_ROLL(two);
        let depth_c = depth_of_offset(c, 1 - 1);
        OP_ROLL(depth_c);
        let cl = OP_CAT(last, c);
        let one = 1;
        let copied = OP_PICK(one);
        3;
        OP_ROLL;
        let e = OP_1ADD(d);
    }
    pub fn case(n: u64) -> Case {
        let (a, b, c, d) = (bytes(n), bytes(2), bytes(n), number());
        let i = Inputs { a: a.clone().into(), b: b.clone().into(), c: c.clone().into(), d };
        let ba = cat(&[&b, &a]);
        let cl = cat(&[&ba, &c]);
        let d = d as i64;
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![
                P(I(2)), C(OP_PICK), P(I(4)), C(OP_ROLL), C(OP_CAT), C(OP_ROT), P(I(3)), C(OP_PICK), P(I(2)), C(OP_ROLL), P(I(2)), C(OP_ROLL), C(OP_CAT),
                P(I(1)), C(OP_PICK), P(I(3)), C(OP_ROLL), C(OP_1ADD),
            ],
            named: vec![("a", A(a.clone())), ("b", A(b.clone())), ("c", A(c.clone())), ("d", I(d)), ("depth_b", I(2)), ("k", I(4)), ("ba", A(ba.clone())), ("again", A(b.clone())), ("two", I(2)), ("last", A(ba)), ("depth_c", I(2)), ("cl", A(cl.clone())), ("one", I(1)), ("copied", A(b.clone())), ("e", I(d + 1))],
            given: vec![A(a), A(b.clone()), A(c), I(d)],
            want: Some(vec![A(b.clone()), A(b.clone()), A(cl), A(b), I(d + 1)]),
            alt: vec![],
        }
    }
}
/// the alternative stack
mod alts {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs)]
    fn f(_: Params, a: ByteArray, b: ByteArray, n: i32) {
        let m = OP_TOALTSTACK(n);
        OP_TOALTSTACK(b);
        5;
        OP_TOALTSTACK;
        let five = OP_FROMALTSTACK;
        OP_DROP(five);
        let y = OP_FROMALTSTACK(b);
        let ay = OP_CAT(a, y);
        OP_FROMALTSTACK(m);
        let q = OP_1ADD(m);
        OP_SWAP(ay, q);
        OP_TOALTSTACK(ay);
        OP_DUP(q);
        OP_TOALTSTACK;
    }
    pub fn case(n: u64) -> Case {
        let (a, b, k) = (bytes(n), bytes(3), number());
        let i = Inputs { a: a.clone().into(), b: b.clone().into(), n: k };
        let ay = cat(&[&a, &b]);
        let k = k as i64;
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![C(OP_TOALTSTACK), C(OP_TOALTSTACK), P(I(5)), C(OP_TOALTSTACK), C(OP_FROMALTSTACK), C(OP_DROP), C(OP_FROMALTSTACK), C(OP_CAT), C(OP_FROMALTSTACK), C(OP_1ADD), C(OP_SWAP), C(OP_TOALTSTACK), C(OP_DUP), C(OP_TOALTSTACK)],
            named: vec![("a", A(a.clone())), ("b", A(b.clone())), ("n", I(k)), ("m", I(k)), ("five", I(5)), ("y", A(b.clone())), ("ay", A(ay.clone())), ("q", I(k + 1))],
            given: vec![A(a), A(b), I(k)],
            want: Some(vec![I(k + 1)]),
            alt: vec![A(ay), I(k + 1)],
        }
    }
}
/// nested conditionals in blocks
mod ifs {
    use super::*;
    struct Params {
        k: i32,
    }
    #[bitcoin_cash::script(Inputs)]
    fn f(p: Params, a: i32, b: i32, c: bool, d: bool) {
        OP_IF(d);
        {
            OP_IF(c);
            {
                let r = OP_ADD(a, b);
            }
            OP_ELSE;
            {
                OP_SWAP(a, b);
                let r = OP_SUB(b, a);
            }
            OP_ENDIF;
            let k = p.k;
            let r = OP_MAX(r, k);
        }
        OP_ELSE;
        {
            OP_DROP(c);
            OP_NIP(a, b);
            let r = OP_NEGATE(b);
        }
        OP_ENDIF;
        let s = OP_1SUB(r);
    }
    pub fn case(_: u64) -> Case {
        let (a, b, k, c, d) = (number(), number(), number(), sym::boolean(), sym::boolean());
        let i = Inputs { a, b, c, d };
        let ops = Params { k }.f().ops().into_owned();
        let (a, b, k) = (a as i64, b as i64, k as i64);
        let mut named = vec![("a", I(a)), ("b", I(b)), ("c", B(c)), ("d", B(d)), ("k", I(k))];
        let r = if d {
            let r = if c { a + b } else { b - a };
            named.push(("r", I(r)));
            r.max(k)
        } else {
            -b
        };
        named.push(("r", I(r)));
        named.push(("s", I(r - 1)));
        Case {
            inputs: i.ops().into_owned(),
            ops,
            written: vec![C(OP_IF), C(OP_IF), C(OP_ADD), C(OP_ELSE), C(OP_SWAP), C(OP_SUB), C(OP_ENDIF), P(I(k)), C(OP_MAX), C(OP_ELSE), C(OP_DROP), C(OP_NIP), C(OP_NEGATE), C(OP_ENDIF), C(OP_1SUB)],
            named,
            given: vec![I(a), I(b), B(c), B(d)],
            want: Some(vec![I(r - 1)]),
            alt: vec![],
        }
    }
}
/// conditionals without blocks, without OP_ELSE, inside the OP_ELSE of another
mod flat {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs)]
    fn f(_: Params, x: i32, c: bool, d: bool) {
        OP_TOALTSTACK(d);
        OP_NOTIF(c);
        let x = OP_1ADD(x);
        OP_ELSE;
        OP_FROMALTSTACK(d);
        OP_DUP(d);
        OP_TOALTSTACK(d);
        OP_IF(d);
        let x = OP_1SUB(x);
        OP_DUP(x);
        let zero = 0;
        let neg = OP_LESSTHAN(x, zero);
        OP_IF(neg);
        let x = OP_NEGATE(x);
        OP_ENDIF;
        OP_ENDIF;
        let three = 3;
        let x = OP_MIN(x, three);
        OP_ENDIF;
        OP_FROMALTSTACK(d);
        OP_VERIFY(d);
        OP_DUP(x);
    }
    pub fn case(_: u64) -> Case {
        let (x, c, d) = (number(), sym::boolean(), sym::boolean());
        let i = Inputs { x, c, d };
        let x = x as i64;
        let mut named = vec![("x", I(x)), ("c", B(c)), ("d", B(d)), ("zero", I(0)), ("three", I(3))];
        let mut v = x;
        if !c {
            v += 1;
        } else {
            if d {
                v -= 1;
                named.push(("x", I(v)));
                named.push(("neg", B(v < 0)));
                if v < 0 {
                    v = -v;
                    named.push(("x", I(v)));
                }
            }
            v = v.min(3);
        }
        named.push(("x", I(v)));
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![
                C(OP_TOALTSTACK), C(OP_NOTIF), C(OP_1ADD), C(OP_ELSE), C(OP_FROMALTSTACK), C(OP_DUP), C(OP_TOALTSTACK), C(OP_IF), C(OP_1SUB), C(OP_DUP), P(I(0)), C(OP_LESSTHAN), C(OP_IF), C(OP_NEGATE), C(OP_ENDIF), C(OP_ENDIF),
                P(I(3)), C(OP_MIN), C(OP_ENDIF), C(OP_FROMALTSTACK), C(OP_VERIFY), C(OP_DUP),
            ],
            named,
            given: vec![I(x), B(c), B(d)],
            want: if d { Some(vec![I(v), I(v)]) } else { None },
            alt: vec![],
        }
    }
}
/// inputs that depend on the branch taken
mod variants {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs, Yes = "cond", No = "!cond")]
    fn f(_: Params, #[variant(Yes)] sig: ByteArray, #[variant(Yes, No)] a: ByteArray, #[variant(No)] h: i32, cond: bool) {
        OP_IF(cond);
        let r = OP_CAT(sig, a);
        OP_ELSE;
        let h = OP_1ADD(h);
        OP_DROP(h);
        let suffix = b"x";
        let r = OP_CAT(a, suffix);
        OP_ENDIF;
        let (__, len) = OP_SIZE(r);
        OP_SWAP(r, len);
    }
    pub fn case(n: u64) -> Case {
        let (sig, a, h, yes) = (bytes(n), bytes(2), number(), sym::boolean());
        let i = if yes { Inputs::Yes { sig: sig.clone().into(), a: a.clone().into(), cond: true } } else { Inputs::No { a: a.clone().into(), h, cond: false } };
        let h = h as i64;
        let r = if yes { cat(&[&sig, &a]) } else { cat(&[&a, &b"x".to_vec()]) };
        let len = I(r.len() as i64);
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![C(OP_IF), C(OP_CAT), C(OP_ELSE), C(OP_1ADD), C(OP_DROP), P(A(b"x".to_vec())), C(OP_CAT), C(OP_ENDIF), C(OP_SIZE), C(OP_SWAP)],
            named: vec![("sig", A(sig.clone())), ("a", A(a.clone())), ("h", I(h)), ("h", I(h + 1)), ("cond", B(yes)), ("suffix", A(b"x".to_vec())), ("r", A(r.clone())), ("len", len.clone())],
            given: if yes { vec![A(sig), A(a), B(true)] } else { vec![A(a), I(h), B(false)] },
            want: Some(vec![len, A(r)]),
            alt: vec![],
        }
    }
}
/// the same with the branches the other way round, and items found by depth
mod notif {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs, Yes = "cond", No = "!cond")]
    fn f(_: Params, a: ByteArray, #[variant(Yes)] sig: ByteArray, #[variant(No)] h: i32, #[variant(No)] g: i32, cond: bool) {
        OP_NOTIF(cond);
        let i = OP_SUB(h, g);
        OP_DUP(i);
        OP_TOALTSTACK(i);
        let depth = depth_of(a);
        OP_PICK(depth);
        OP_NIP(i, a);
        let r = OP_CAT(a, a);
        OP_ELSE;
        OP_SWAP(a, sig);
        let r = OP_CAT(sig, a);
        let i = 9;
        OP_TOALTSTACK(i);
        OP_ENDIF;
        OP_FROMALTSTACK(i);
    }
    pub fn case(n: u64) -> Case {
        let (sig, a, h, g, yes) = (bytes(n), bytes(2), number(), number(), sym::boolean());
        sym::assume(h as i64 - g as i64 > -0x7000_0000 && (h as i64 - g as i64) < 0x7000_0000);
        let i = if yes { Inputs::Yes { sig: sig.clone().into(), a: a.clone().into(), cond: true } } else { Inputs::No { a: a.clone().into(), h, g, cond: false } };
        let (h, g) = (h as i64, g as i64);
        let r = if yes { cat(&[&sig, &a]) } else { cat(&[&a, &a]) };
        let last = if yes { I(9) } else { I(h - g) };
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![C(OP_NOTIF), C(OP_SUB), C(OP_DUP), C(OP_TOALTSTACK), P(I(1)), C(OP_PICK), C(OP_NIP), C(OP_CAT), C(OP_ELSE), C(OP_SWAP), C(OP_CAT), P(I(9)), C(OP_TOALTSTACK), C(OP_ENDIF), C(OP_FROMALTSTACK)],
            named: vec![("sig", A(sig.clone())), ("a", A(a.clone())), ("h", I(h)), ("g", I(g)), ("cond", B(yes)), ("i", last.clone()), ("depth", I(1)), ("r", A(r.clone()))],
            given: if yes { vec![A(a), A(sig), B(true)] } else { vec![A(a), I(h), I(g), B(false)] },
            want: Some(vec![A(r), last]),
            alt: vec![],
        }
    }
}
/// three variants of two conditions
mod nested_variants {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs, Both = "x&&y", One = "x&&!y", None = "!x")]
    fn f(_: Params, #[variant(Both)] a: ByteArray, #[variant(Both, One)] b: ByteArray, #[variant(Both, One)] y: bool, #[variant(None)] n: i32, x: bool) {
        OP_IF(x);
        {
            OP_IF(y);
            {
                let out = OP_CAT(a, b);
            }
            OP_ELSE;
            {
                let t = b"t";
                OP_SWAP(b, t);
                let out = OP_CAT(t, b);
            }
            OP_ENDIF;
        }
        OP_ELSE;
        {
            OP_DROP(n);
            let out = b"none";
        }
        OP_ENDIF;
        let one = 1;
        let (head, tail) = OP_SPLIT(out, one);
    }
    pub fn case(k: u64) -> Case {
        let (a, b, n, x, y) = (bytes(k), bytes(k + 1), number(), sym::boolean(), sym::boolean());
        let i = match (x, y) {
            (true, true) => Inputs::Both { a: a.clone().into(), b: b.clone().into(), y, x },
            (true, false) => Inputs::One { b: b.clone().into(), y, x },
            _ => Inputs::None { n, x },
        };
        let n = n as i64;
        let out = match (x, y) {
            (true, true) => cat(&[&a, &b]),
            (true, false) => cat(&[&b"t".to_vec(), &b]),
            _ => b"none".to_vec(),
        };
        let (head, tail) = (A(out[..1].to_vec()), A(out[1..].to_vec()));
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![C(OP_IF), C(OP_IF), C(OP_CAT), C(OP_ELSE), P(A(b"t".to_vec())), C(OP_SWAP), C(OP_CAT), C(OP_ENDIF), C(OP_ELSE), C(OP_DROP), P(A(b"none".to_vec())), C(OP_ENDIF), P(I(1)), C(OP_SPLIT)],
            named: vec![("a", A(a.clone())), ("b", A(b.clone())), ("n", I(n)), ("x", B(x)), ("y", B(y)), ("t", A(b"t".to_vec())), ("out", A(out)), ("one", I(1)), ("head", head.clone()), ("tail", tail.clone())],
            given: match (x, y) {
                (true, true) => vec![A(a), A(b), B(y), B(x)],
                (true, false) => vec![A(b), B(y), B(x)],
                _ => vec![I(n), B(x)],
            },
            want: Some(vec![head, tail]),
            alt: vec![],
        }
    }
}
/// values pushed, named and not
mod pushes {
    use super::*;
    struct Params<'a> {
        n: i32,
        flag: bool,
        data: ByteArray,
        hash: Sha256d,
        short: &'a Hash160,
        key: Pubkey,
    }
    #[bitcoin_cash::script(Inputs)]
    fn f(p: &Params<'_>) {
        p.n;
        let flag = p.flag;
        p.data;
        let hash = p.hash;
        p.short;
        let key = p.key;
        5;
        let minus = -1;
        let yes = true;
        b"xyz";
        let big = 0x7fff_ffff;
        let more = (p.n ^ 1) & 0xff;
        p.data.len() as i32;
        let empty = b"";
        p.flag == false;
    }
    pub fn case(n: u64) -> Case {
        let (k, flag, data, hash, short, key): (i32, bool, Vec<u8>, [u8; 32], [u8; 20], [u8; 33]) = (sym::i32(), sym::boolean(), bytes(n), sym::arr(), sym::arr(), sym::arr());
        sym::assume(k != i32::MIN);
        let short_hash = Hash160::new(short);
        let p = Params { n: k, flag, data: data.clone().into(), hash: Sha256d::new(hash), short: &short_hash, key: Pubkey::new(key) };
        let want = vec![
            I(k as i64), B(flag), A(data.clone()), A(hash.to_vec()), A(short.to_vec()), A(key.to_vec()), I(5), I(-1), B(true), A(b"xyz".to_vec()), I(0x7fff_ffff), I(((k ^ 1) & 0xff) as i64), I(n as i64), A(vec![]), B(!flag),
        ];
        Case {
            inputs: Inputs {}.ops().into_owned(),
            ops: p.f().ops().into_owned(),
            written: want.iter().map(|x| P(x.clone())).collect(),
            named: vec![("flag", want[1].clone()), ("hash", want[3].clone()), ("key", want[5].clone()), ("minus", I(-1)), ("yes", B(true)), ("big", I(0x7fff_ffff)), ("more", want[11].clone()), ("empty", A(vec![]))],
            given: vec![],
            want: Some(want),
            alt: vec![],
        }
    }
}
/// without debugging information
mod quiet {
    use super::*;
    struct Params {
        k: i32,
    }
    #[bitcoin_cash::script(Inputs, debug = false)]
    fn f(p: Params, a: ByteArray, b: i32, c: bool) {
        OP_IF(c);
        let k = p.k;
        let b = OP_ADD(b, k);
        OP_ENDIF;
        OP_SWAP(a, b);
        OP_TOALTSTACK(a);
        let depth = depth_of(b);
        OP_PICK(depth);
        OP_FROMALTSTACK(a);
    }
    pub fn case(n: u64) -> Case {
        let (a, b, k, c) = (bytes(n), number(), number(), sym::boolean());
        let i = Inputs { a: a.clone().into(), b, c };
        let ops = Params { k }.f().ops().into_owned();
        let (b, k) = (b as i64, k as i64);
        let r = if c { b + k } else { b };
        Case {
            inputs: i.ops().into_owned(),
            ops,
            written: vec![C(OP_IF), P(I(k)), C(OP_ADD), C(OP_ENDIF), C(OP_SWAP), C(OP_TOALTSTACK), P(I(0)), C(OP_PICK), C(OP_FROMALTSTACK)],
            named: vec![],
            given: vec![A(a.clone()), I(b), B(c)],
            want: Some(vec![I(r), I(r), A(a)]),
            alt: vec![],
        }
    }
}
/// numbers and booleans
mod nums {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs)]
    fn f(_: Params, x: i32, lo: i32, hi: i32) {
        OP_3DUP(x, lo, hi);
        let w = OP_WITHIN(x, lo, hi);
        OP_TOALTSTACK(w);
        let s = OP_ADD(lo, hi);
        let m = OP_MIN(x, s);
        let z = OP_0NOTEQUAL(m);
        OP_FROMALTSTACK(w);
        let r = OP_BOOLOR(z, w);
        OP_VERIFY(r);
    }
    pub fn case(_: u64) -> Case {
        let (x, lo, hi) = (number(), number(), number());
        let i = Inputs { x, lo, hi };
        let (x, lo, hi) = (x as i64, lo as i64, hi as i64);
        let (w, s) = (lo <= x && x < hi, lo + hi);
        let m = x.min(s);
        let r = m != 0 || w;
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![C(OP_3DUP), C(OP_WITHIN), C(OP_TOALTSTACK), C(OP_ADD), C(OP_MIN), C(OP_0NOTEQUAL), C(OP_FROMALTSTACK), C(OP_BOOLOR), C(OP_VERIFY)],
            named: vec![("x", I(x)), ("lo", I(lo)), ("hi", I(hi)), ("w", B(w)), ("s", I(s)), ("m", I(m)), ("z", B(m != 0)), ("r", B(r))],
            given: vec![I(x), I(lo), I(hi)],
            want: if r { Some(vec![]) } else { None },
            alt: vec![],
        }
    }
}
/// operations on pairs of items
mod pairs {
    use super::*;
    struct Params;
    #[bitcoin_cash::script(Inputs)]
    fn f(_: Params, a: ByteArray, b: ByteArray, c: ByteArray, d: ByteArray, e: ByteArray, g: ByteArray) {
        OP_2ROT(a, b, c, d, e, g);
        OP_2SWAP(e, g, a, b);
        OP_2OVER(a, b, e, g);
        let ab = OP_CAT(a, b);
        OP_TOALTSTACK(ab);
        let (__, __, e2, g2) = OP_2DUP(e, g);
        OP_2DROP(e2, g2);
        let n = OP_DEPTH;
        OP_FROMALTSTACK(ab);
    }
    pub fn case(n: u64) -> Case {
        let (a, b, c, d, e, g) = (bytes(n), bytes(1), bytes(2), bytes(n), bytes(1), bytes(2));
        let i = Inputs { a: a.clone().into(), b: b.clone().into(), c: c.clone().into(), d: d.clone().into(), e: e.clone().into(), g: g.clone().into() };
        let ab = cat(&[&a, &b]);
        let (a, b, c, d, e, g) = (A(a), A(b), A(c), A(d), A(e), A(g));
        Case {
            inputs: i.ops().into_owned(),
            ops: Params.f().ops().into_owned(),
            written: vec![C(OP_2ROT), C(OP_2SWAP), C(OP_2OVER), C(OP_CAT), C(OP_TOALTSTACK), C(OP_2DUP), C(OP_2DROP), C(OP_DEPTH), C(OP_FROMALTSTACK)],
            named: vec![("a", a.clone()), ("b", b.clone()), ("c", c.clone()), ("d", d.clone()), ("e", e.clone()), ("g", g.clone()), ("ab", A(ab.clone())), ("e2", e.clone()), ("g2", g.clone()), ("n", I(6))],
            given: vals(&[&a, &b, &c, &d, &e, &g]),
            want: Some(vals(&[&c, &d, &a, &b, &e, &g, &I(6), &A(ab)])),
            alt: vec![],
        }
    }
}
/// operations that leave their operand, and comparisons
mod checks {
    use super::*;
    struct Params {
        lock: i32,
        want: ByteArray,
    }
    #[bitcoin_cash::script(Inputs)]
    fn f(p: &Params, t: i32, secret: ByteArray) {
        let want = p.want;
        OP_EQUALVERIFY(secret, want);
        OP_CHECKLOCKTIMEVERIFY(t);
        let t = OP_1ADD(t);
        let lock = p.lock;
        OP_CHECKSEQUENCEVERIFY(lock);
        OP_2DUP(t, lock);
        let ok = OP_NUMEQUAL(t, lock);
        OP_NOTIF(ok);
        let late = OP_GREATERTHANOREQUAL(t, lock);
        OP_ELSE;
        OP_2DROP(t, lock);
        let late = false;
        OP_ENDIF;
    }
    pub fn case(n: u64) -> Case {
        let (lock, want, t, secret) = (number(), bytes(n), number(), bytes(n));
        let i = Inputs { t, secret: secret.clone().into() };
        let p = Params { lock, want: want.clone().into() };
        let (lock, t) = (lock as i64, t as i64);
        let (same, late) = (t + 1 == lock, t + 1 > lock);
        Case {
            inputs: i.ops().into_owned(),
            ops: p.f().ops().into_owned(),
            written: vec![P(A(want.clone())), C(OP_EQUALVERIFY), C(OP_CHECKLOCKTIMEVERIFY), C(OP_1ADD), P(I(lock)), C(OP_CHECKSEQUENCEVERIFY), C(OP_2DUP), C(OP_NUMEQUAL), C(OP_NOTIF), C(OP_GREATERTHANOREQUAL), C(OP_ELSE), C(OP_2DROP), P(B(false)), C(OP_ENDIF)],
            named: vec![("t", I(t)), ("t", I(t + 1)), ("secret", A(secret.clone())), ("want", A(want.clone())), ("lock", I(lock)), ("ok", B(same)), ("late", B(late))],
            want: if secret == want { Some(vec![B(late)]) } else { None },
            given: vec![I(t), A(secret)],
            alt: vec![],
        }
    }
}

harnesses! {
    fn c24_script(k, n) {
        let case = match k {
            0 => moves::case(n),
            1 => depths::case(n),
            2 => alts::case(n),
            3 => ifs::case(n),
            4 => flat::case(n),
            5 => variants::case(n),
            6 => notif::case(n),
            7 => nested_variants::case(n),
            8 => pushes::case(n),
            9 => quiet::case(n),
            10 => nums::case(n),
            11 => pairs::case(n),
            _ => checks::case(n),
        };
        decide(case)
    }
}
