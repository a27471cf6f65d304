//! C09: script integers
use crate::sym;
use bitcoin_cash::{Integer, IntegerError, IntegerResult, UInteger};
use std::cmp::Ordering;
use std::convert::{TryFrom, TryInto};

const MAX: i128 = 0x7fff_ffff;
fn ok(v: i128) -> bool {
    v >= -MAX && v <= MAX
}
fn script_int() -> (Integer, i32) {
    let v = sym::i32();
    sym::assume(v != i32::MIN);
    match Integer::new(v) {
        Ok(i) => (i, v),
        Err(_) => {
            sym::check(false, "in-range integer constructed");
            (Integer::ZERO, 0)
        }
    }
}
/// mathematical result of an operation on two in-range operands; None: an error
#[inline(never)]
fn oracle(op: u64, a: i32, b: i32) -> Option<i64> {
    let (x, y) = (a as i64, b as i64);
    let r = match op {
        0 => x + y,
        1 => x - y,
        2 => x.wrapping_mul(y), // 32-bit operands: exact
        3 => {
            if y == 0 {
                return None;
            }
            a.wrapping_div(b) as i64
        }
        4 => {
            if y == 0 {
                return None;
            }
            a.wrapping_rem(b) as i64
        }
        5 => x & y,
        6 => x | y,
        _ => x ^ y,
    };
    if r >= -0x7fff_ffff && r <= 0x7fff_ffff {
        Some(r)
    } else {
        None
    }
}
fn expect(r: IntegerResult, want: Option<i64>) {
    match (r.value(), want) {
        (Ok(v), Some(w)) => {
            sym::reach("result");
            sym::check(v as i64 == w, "exact result");
            match r.integer() {
                Ok(i) => sym::check(i.value() as i64 == w, "integer()"),
                Err(_) => sym::check(false, "integer()"),
            }
        }
        (Err(_), None) => {
            sym::reach("error");
            sym::check(r.integer().is_err(), "integer() is an error");
        }
        (Ok(_), None) => sym::check(false, "out of range is an error"),
        (Err(_), Some(_)) => sym::check(false, "in range is not an error"),
    }
}
fn apply<E: Into<IntegerError>, T: TryInto<IntegerResult, Error = E>>(op: u64, int: bool, a: Integer, b: T) -> IntegerResult {
    let r: IntegerResult = a.into();
    match (op, int) {
        (0, true) => a + b,
        (0, false) => r + b,
        (1, true) => a - b,
        (1, false) => r - b,
        (2, true) => a * b,
        (2, false) => r * b,
        (3, true) => a / b,
        (3, false) => r / b,
        (4, true) => a % b,
        (4, false) => r % b,
        (5, true) => a & b,
        (5, false) => r & b,
        (6, true) => a | b,
        (6, false) => r | b,
        (_, true) => a ^ b,
        (_, false) => r ^ b,
    }
}
fn binop<E: Into<IntegerError>, T: TryInto<IntegerResult, Error = E> + Copy>(op: u64, b: T, bv: Option<i128>) {
    let (a, av) = script_int();
    let want = match bv {
        Some(v) if ok(v) => oracle(op, av, v as i32),
        _ => None,
    };
    let x = apply(op, true, a, b);
    expect(x, want);
    let y = apply(op, false, a, b);
    expect(y, want);
}
macro_rules! by_type {
    ($ty:expr, $f:ident $(, $a:expr)*) => {
        match $ty {
            0 => { let v = sym::i8(); $f($($a,)* v, Some(v as i128)) }
            1 => { let v = sym::u8(); $f($($a,)* v, Some(v as i128)) }
            2 => { let v = sym::i16(); $f($($a,)* v, Some(v as i128)) }
            3 => { let v = sym::u16(); $f($($a,)* v, Some(v as i128)) }
            4 => { let v = sym::i32(); $f($($a,)* v, Some(v as i128)) }
            5 => { let v = sym::u32(); $f($($a,)* v, Some(v as i128)) }
            6 => { let v = sym::i64(); $f($($a,)* v, Some(v as i128)) }
            7 => { let v = sym::u64(); $f($($a,)* v, Some(v as i128)) }
            8 => { let v = sym::i128(); $f($($a,)* v, Some(v)) }
            9 => { let v = sym::u128(); $f($($a,)* v, if v >> 127 == 0 { Some(v as i128) } else { None }) }
            10 => { let v = sym::i64() as isize; $f($($a,)* v, Some(v as i128)) }
            11 => { let v = sym::u64() as usize; $f($($a,)* v, Some(v as i128)) }
            12 => { let (i, v) = script_int(); $f($($a,)* i, Some(v as i128)) }
            13 => { let (i, v) = script_int(); $f($($a,)* IntegerResult::from(i), Some(v as i128)) }
            _ => { let v = sym::i64(); sym::assume(!ok(v as i128)); $f($($a,)* IntegerResult::new(v), None) }
        }
    };
}
fn ord(a: i128, b: i128) -> Option<Ordering> {
    Some(if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal })
}
fn compare<E: Into<IntegerError>, T: TryInto<IntegerResult, Error = E> + Clone>(b: T, bv: Option<i128>) {
    let (a, av) = script_int();
    let r: IntegerResult = a.into();
    match bv {
        Some(v) if ok(v) => {
            sym::reach("comparable");
            sym::check((r == b) == (av as i128 == v), "equality agrees with the numbers");
            sym::check((r != b) == (av as i128 != v), "inequality agrees with the numbers");
            sym::check(r.partial_cmp(&b) == ord(av as i128, v), "order agrees with the numbers");
            sym::check((r < b) == ((av as i128) < v), "less");
            sym::check((r <= b) == (av as i128 <= v), "less or equal");
            sym::check((r > b) == (av as i128 > v), "greater");
            sym::check((r >= b) == (av as i128 >= v), "greater or equal");
        }
        _ => {
            sym::reach("not a script integer");
            sym::check(!(r == b), "equal to no invalid value");
            sym::check(r.partial_cmp(&b).is_none(), "not ordered with invalid values");
        }
    }
    let bad = IntegerResult::new(1i64 << 40);
    sym::check(!(bad == b) && bad.partial_cmp(&b).is_none(), "errors equal nothing");
}
fn compare_int<T: Into<Integer> + Clone>(b: T, bv: Option<i128>) {
    let (a, av) = script_int();
    let (av, v) = (av as i128, bv.unwrap());
    sym::check((a == b) == (av == v), "equality agrees with the numbers");
    sym::check(a.partial_cmp(&b) == ord(av, v), "order agrees with the numbers");
    sym::check((a < b) == (av < v) && (a > b) == (av > v) && (a <= b) == (av <= v) && (a >= b) == (av >= v), "order operators");
    let c: Integer = b.into();
    sym::check(c.value() as i128 == v, "infallible conversion keeps the value");
    sym::check(Ord::cmp(&a, &c) == ord(av, v).unwrap(), "total order agrees");
}
fn convert<T: TryInto<i32> + TryInto<i128> + TryInto<Integer> + Into<IntegerResult> + Copy>(b: T, bv: Option<i128>) {
    let fits = match bv {
        Some(v) => ok(v),
        None => false,
    };
    let v = bv.unwrap_or(0);
    let same = |r: Result<Integer, IntegerError>, m: &str| match r {
        Ok(i) => {
            sym::check(fits && i.value() as i128 == v, m);
            sym::check(*i as i128 == v, "deref");
            let p: i32 = i.into();
            sym::check(p as i128 == v, "back to the primitive");
        }
        Err(_) => sym::check(!fits, m),
    };
    same(Integer::new(b), "Integer::new");
    same(IntegerResult::new(b).integer(), "IntegerResult::new");
    let r: IntegerResult = b.into();
    same(r.integer(), "into IntegerResult");
    let t: Result<Integer, _> = b.try_into();
    match t {
        Ok(i) => sym::check(fits && i.value() as i128 == v, "into Integer"),
        Err(_) => sym::check(!fits, "into Integer"),
    }
    match i32::try_from(r) {
        Ok(p) => sym::check(fits && p as i128 == v, "IntegerResult to primitive"),
        Err(_) => sym::check(!fits, "IntegerResult to primitive"),
    }
    match UInteger::new(b) {
        Ok(u) => {
            sym::reach("unsigned");
            sym::check(fits && v >= 0 && u.value() as i128 == v && u.integer().value() as i128 == v, "UInteger::new");
        }
        Err(_) => sym::check(!(fits && v >= 0), "UInteger::new"),
    }
}
mod num_like {
    pub trait Prim {}
    macro_rules! p { ($($t:ty)*) => { $(impl Prim for $t {})* } }
    p!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);
}
macro_rules! by_prim {
    ($ty:expr, $f:ident) => {
        match $ty {
            0 => { let v = sym::i8(); $f(v, Some(v as i128)) }
            1 => { let v = sym::u8(); $f(v, Some(v as i128)) }
            2 => { let v = sym::i16(); $f(v, Some(v as i128)) }
            3 => { let v = sym::u16(); $f(v, Some(v as i128)) }
            4 => { let v = sym::i32(); $f(v, Some(v as i128)) }
            5 => { let v = sym::u32(); $f(v, Some(v as i128)) }
            6 => { let v = sym::i64(); $f(v, Some(v as i128)) }
            7 => { let v = sym::u64(); $f(v, Some(v as i128)) }
            8 => { let v = sym::i128(); $f(v, Some(v)) }
            9 => { let v = sym::u128(); $f(v, if v >> 127 == 0 { Some(v as i128) } else { None }) }
            10 => { let v = sym::i64() as isize; $f(v, Some(v as i128)) }
            _ => { let v = sym::u64() as usize; $f(v, Some(v as i128)) }
        }
    };
}
harnesses! {
    fn c09_binop(op, ty) {
        by_type!(ty, binop, op);
    }
    fn c09_compare(ty) {
        by_type!(ty, compare);
    }
    fn c09_compare_int(ty) {
        match ty {
            0 => { let v = sym::i8(); compare_int(v, Some(v as i128)) }
            1 => { let v = sym::u8(); compare_int(v, Some(v as i128)) }
            2 => { let v = sym::i16(); compare_int(v, Some(v as i128)) }
            3 => { let v = sym::u16(); compare_int(v, Some(v as i128)) }
            _ => { let (i, v) = script_int(); compare_int(i, Some(v as i128)) }
        }
    }
    fn c09_convert(ty) {
        by_prim!(ty, convert);
    }
    fn c09_neg() {
        let (a, av) = script_int();
        let n: Integer = -a;
        sym::check(n.value() as i64 == -(av as i64), "negation of an integer");
        expect(-IntegerResult::from(a), Some(-(av as i64)));
        expect(-IntegerResult::new(1i64 << 33), None);
    }
    // shifts are 32-bit shifts (bits shifted out are dropped), counts of 32 or more are errors
    fn c09_shift(left) {
        let (a, av) = script_int();
        let k = sym::u32();
        let want = if k >= 32 {
            None
        } else {
            let r = if left != 0 { (((av as u32 as u64) << (k & 63)) as u32) as i32 } else { ((av as i64) >> k) as i32 };
            if r == i32::MIN { None } else { Some(r as i64) }
        };
        if left != 0 {
            expect(a << k, want);
            expect(IntegerResult::from(a) << k, want);
            expect(IntegerResult::new(1i64 << 33) << k, None);
        } else {
            expect(a >> k, want);
            expect(IntegerResult::from(a) >> k, want);
            expect(IntegerResult::new(1i64 << 33) >> k, None);
        }
    }
    // a failed operand gives a failed result, whatever the other is
    fn c09_error(op) {
        let e = sym::i64();
        sym::assume(!ok(e as i128));
        let (c, _) = script_int();
        expect(apply2(op, IntegerResult::new(e), c.into()), None);
        expect(apply2(op, c.into(), IntegerResult::new(e)), None);
        expect(apply2(op, IntegerResult::new(e), IntegerResult::new(e)), None);
        expect(-apply2(op, IntegerResult::new(e), c.into()), None);
        expect(apply2(op, IntegerResult::from(Integer::new(1).unwrap()) / 0, c.into()), None);
    }
    // (a op b) op2 c: exact, and errors propagate
    fn c09_chain(op, op2, which) {
        let (a, av) = script_int();
        let (b, bv) = script_int();
        let (c, cv) = script_int();
        let ab = apply(op, true, a, b);
        let w = oracle(op, av, bv);
        let two = |x: Option<i64>, y: Option<i64>| match (x, y) {
            (Some(x), Some(y)) => oracle(op2, x as i32, y as i32),
            _ => None,
        };
        if which == 0 {
            expect(apply2(op2, ab, c.into()), two(w, Some(cv as i64)));
        } else if which == 1 {
            expect(apply2(op2, c.into(), ab), two(Some(cv as i64), w));
        } else {
            expect(-apply2(op2, ab, ab), two(w, w).map(|x| -x));
        }
    }
}
fn apply2(op: u64, a: IntegerResult, b: IntegerResult) -> IntegerResult {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a % b,
        5 => a & b,
        6 => a | b,
        _ => a ^ b,
    }
}
