//! C23: derived codecs
use crate::{refm, sym};
use bitcoin_cash::*;

/// every kind of field a codec exists for, in an order unlike their sizes
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, Clone)]
struct Plain {
    wide: u64,
    flag: bool,
    bytes: ByteArray,
    small: i8,
    hash: Sha256d,
    list: Vec<u16>,
    big: i128,
    short: Hash160,
}
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, Clone)]
struct Single {
    only: u32,
}
/// skipped at the beginning, twice in the middle and at the end
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, Clone)]
struct Skips {
    #[bitcoin_code(skip)]
    first: Option<u64>,
    a: u16,
    #[bitcoin_code(skip)]
    second: u32,
    #[bitcoin_code(skip)]
    third: Vec<u8>,
    b: u8,
    c: ByteArray,
    #[bitcoin_code(skip)]
    last: bool,
}
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, Clone)]
struct AllSkipped {
    #[bitcoin_code(skip)]
    x: u64,
    #[bitcoin_code(skip)]
    y: Option<ByteArray>,
}
/// only the codec's own attribute marks a field as skipped
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, serde::Serialize, serde::Deserialize, Clone)]
struct Foreign {
    a: u8,
    #[serde(skip)]
    b: u16,
    #[serde(skip)]
    #[bitcoin_code(skip)]
    c: u32,
    d: u8,
}
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, Clone)]
struct Nested {
    head: Single,
    skips: Skips,
    many: Vec<Single>,
    nothing: AllSkipped,
    tail: u8,
}
/// fields that share their type: only the order tells them apart
#[bitcoin_code(crate = "bitcoin_cash")]
#[derive(BitcoinCode, Clone)]
struct Same {
    z: u8,
    y: u8,
    #[bitcoin_code(skip)]
    x: u8,
    w: u8,
    a: u8,
}

trait Case: BitcoinCode {
    /// a value with symbolic contents, and its bytes
    fn make(n: u64) -> (Self, Vec<u8>);
    /// as it is after decoding
    fn is(&self, o: &Self) -> bool;
}
fn list(n: u64, b: &[u8]) -> Vec<u8> {
    let mut v = refm::var_int(n);
    v.extend_from_slice(b);
    v
}
impl Case for Plain {
    fn make(n: u64) -> (Self, Vec<u8>) {
        let (wide, flag, small, big) = (sym::u64(), sym::boolean(), sym::i8(), i128::from_le_bytes(sym::arr()));
        let (bytes, hash, short): (Vec<u8>, [u8; 32], [u8; 20]) = (sym::vec(n), sym::arr(), sym::arr());
        let l: Vec<u16> = (0..n % 3).map(|_| sym::u16()).collect();
        let lb: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
        let want = [wide.to_le_bytes().to_vec(), vec![flag as u8], list(n, &bytes), vec![small as u8], hash.to_vec(), list(l.len() as u64, &lb), big.to_le_bytes().to_vec(), short.to_vec()].concat();
        (Plain { wide, flag, bytes: bytes.into(), small, hash: Sha256d::new(hash), list: l, big, short: Hash160::new(short) }, want)
    }
    fn is(&self, o: &Self) -> bool {
        self.wide == o.wide && self.flag == o.flag && self.bytes.as_slice() == o.bytes.as_slice() && self.small == o.small && self.hash.as_slice() == o.hash.as_slice() && self.list == o.list && self.big == o.big && self.short.as_slice() == o.short.as_slice()
    }
}
impl Case for Single {
    fn make(_: u64) -> (Self, Vec<u8>) {
        let only = sym::u32();
        (Single { only }, only.to_le_bytes().to_vec())
    }
    fn is(&self, o: &Self) -> bool {
        self.only == o.only
    }
}
impl Case for Skips {
    fn make(n: u64) -> (Self, Vec<u8>) {
        let (a, b, c) = (sym::u16(), sym::u8(), sym::vec(n));
        let want = [a.to_le_bytes().to_vec(), vec![b], list(n, &c)].concat();
        (Skips { first: Some(sym::u64()), a, second: sym::u32(), third: sym::vec(2), b, c: c.into(), last: sym::boolean() }, want)
    }
    fn is(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b && self.c.as_slice() == o.c.as_slice() && self.first.is_none() && self.second == 0 && self.third.is_empty() && !self.last
    }
}
impl Case for AllSkipped {
    fn make(n: u64) -> (Self, Vec<u8>) {
        (AllSkipped { x: sym::u64(), y: Some(sym::vec(n).into()) }, vec![])
    }
    fn is(&self, _: &Self) -> bool {
        self.x == 0 && self.y.is_none()
    }
}
impl Case for Foreign {
    fn make(_: u64) -> (Self, Vec<u8>) {
        let (a, b, d) = (sym::u8(), sym::u16(), sym::u8());
        (Foreign { a, b, c: sym::u32(), d }, [vec![a], b.to_le_bytes().to_vec(), vec![d]].concat())
    }
    fn is(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b && self.c == 0 && self.d == o.d
    }
}
impl Case for Nested {
    fn make(n: u64) -> (Self, Vec<u8>) {
        let (head, h) = Single::make(n);
        let (skips, s) = Skips::make(n);
        let (mut many, mut m) = (vec![], vec![]);
        for _ in 0..n {
            let (x, b) = Single::make(n);
            many.push(x);
            m.extend(b);
        }
        let (nothing, _) = AllSkipped::make(n);
        let tail = sym::u8();
        (Nested { head, skips, many, nothing, tail }, [h, s, list(n, &m), vec![tail]].concat())
    }
    fn is(&self, o: &Self) -> bool {
        self.head.is(&o.head) && self.skips.is(&o.skips) && self.many.len() == o.many.len() && self.many.iter().zip(&o.many).all(|(x, y)| x.is(y)) && self.nothing.is(&o.nothing) && self.tail == o.tail
    }
}
impl Case for Same {
    fn make(_: u64) -> (Self, Vec<u8>) {
        let b: [u8; 4] = sym::arr();
        (Same { z: b[0], y: b[1], x: sym::u8(), w: b[2], a: b[3] }, b.to_vec())
    }
    fn is(&self, o: &Self) -> bool {
        self.z == o.z && self.y == o.y && self.x == 0 && self.w == o.w && self.a == o.a
    }
}
macro_rules! cases {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<Plain>($($a),*),
            1 => $f::<Single>($($a),*),
            2 => $f::<Skips>($($a),*),
            3 => $f::<AllSkipped>($($a),*),
            4 => $f::<Foreign>($($a),*),
            5 => $f::<Nested>($($a),*),
            _ => $f::<Same>($($a),*),
        }
    };
}
fn codec<T: Case>(n: u64, rest: u64) {
    let (v, want) = T::make(n);
    let s = v.ser();
    sym::obs(&s);
    sym::check(s.as_slice() == &want[..], "the fields in order");
    let r = sym::vec(rest);
    let all = [&want[..], &r[..]].concat();
    match T::deser_rest(all.clone().into()) {
        Ok((w, left)) => {
            sym::reach("decoded");
            sym::check(w.is(&v), "the fields back, skipped ones at their default");
            sym::check(left.as_slice() == &r[..], "the bytes that follow are untouched");
        }
        Err(_) => sym::check(false, "decodes"),
    }
    sym::check(T::deser(all.into()).is_ok() == (rest == 0), "strict decoding takes everything");
    // cut short anywhere
    for cut in 0..want.len() {
        sym::check(T::deser_rest(want[..cut].into()).is_err(), "truncated input is an error");
    }
}
fn any<T: Case>(n: u64) {
    let b = sym::vec(n);
    if let Ok((v, left)) = T::deser_rest(b.clone().into()) {
        let used = b.len() - left.len();
        sym::check(left.as_slice() == &b[used..], "the bytes that follow are untouched");
        match T::deser(v.ser()) {
            Ok(w) => sym::check(w.is(&v), "what was read, written and read again is the same"),
            Err(_) => sym::check(false, "what was read can be written"),
        }
    }
}
harnesses! {
    fn c23_codec(case, n, rest) {
        cases!(case, codec, n, rest);
    }
    fn c23_any(case, n) {
        cases!(case, any, n);
    }
}
