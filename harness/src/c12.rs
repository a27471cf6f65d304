//! C12: hash values
use crate::sym;
use bitcoin_cash::{ByteArray, Function, Hash160, Hashed, Ripemd160, Sha1, Sha256, Sha256d};
use sha1::Digest;

fn prim(kind: u64, m: &[u8]) -> Vec<u8> {
    match kind {
        0 => sha1::Sha1::digest(m).as_slice().to_vec(),
        1 => ripemd160::Ripemd160::digest(m).as_slice().to_vec(),
        2 => sha2::Sha256::digest(m).as_slice().to_vec(),
        3 => prim(2, &prim(2, m)),
        _ => prim(1, &prim(2, m)),
    }
}
fn fun(kind: u64) -> Function {
    match kind {
        0 => Function::Sha1,
        1 => Function::Ripemd160,
        2 => Function::Sha256,
        3 => Function::Hash256,
        _ => Function::Hash160,
    }
}
fn width(kind: u64) -> usize {
    if kind == 2 || kind == 3 { 32 } else { 20 }
}
macro_rules! by_kind {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k { 0 => $f::<Sha1>($k, $($a),*), 1 => $f::<Ripemd160>($k, $($a),*), 2 => $f::<Sha256>($k, $($a),*), 3 => $f::<Sha256d>($k, $($a),*), _ => $f::<Hash160>($k, $($a),*) }
    };
}
fn digest<H: Hashed + Into<ByteArray>>(kind: u64, m: &[u8], parts: bool) {
    let msg: ByteArray = if parts { ByteArray::new("a", m[..m.len() / 2].to_vec()).concat(&m[m.len() / 2..]) } else { m.into() };
    let h = H::digest(msg.clone());
    let want = prim(kind, m);
    sym::obs(h.as_slice());
    sym::check(h.as_slice() == &want[..], "composition of the primitive hashes");
    sym::check(h.as_slice().len() == width(kind), "length");
    sym::check(&*H::digest_slice(m) == &want[..], "digest of a slice");
    sym::check(H::function() == fun(kind), "function of the type");
    let named = H::digest(msg).named("n");
    let b: ByteArray = h.into();
    sym::check(b.function() == fun(kind), "tagged with the function");
    match b.preimage() {
        Some(p) => {
            sym::check(p.len() == 1, "one preimage");
            sym::check(p[0].as_slice() == m, "preimage is the message");
            sym::check(p[0].function() == Function::Plain, "the message keeps its tag");
            sym::check(p[0].preimage().map_or(0, |q| q.len()) == if parts { 2 } else { 0 }, "the message keeps its parts");
        }
        None => sym::check(false, "has a preimage"),
    }
    sym::check(named.as_slice() == &want[..] && named.as_byte_array().name() == Some("n"), "naming changes nothing else");
    sym::check(named.as_byte_array().function() == fun(kind) && named.as_byte_array().preimage().map_or(false, |p| p.len() == 1), "naming keeps the provenance");
}
fn rev(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        v.push(b[i]);
    }
    v
}
fn hex_digit(x: u8) -> u8 {
    sym::ite(x < 10, (b'0' + x) as u64, (b'a' - 10 + (x & 15)) as u64) as u8
}
fn hex_of(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for x in b {
        v.push(hex_digit(x >> 4));
        v.push(hex_digit(x & 15));
    }
    v
}
fn slice<H: Hashed>(kind: u64, n: u64) {
    let d = sym::vec(n);
    let ok = d.len() == width(kind);
    if ok { sym::reach("right length") } else { sym::reach("wrong length") }
    match H::from_slice(&d) {
        Ok(h) => {
            sym::check(ok, "only the right length");
            sym::check(h.as_slice() == &d[..], "stores the bytes");
            sym::check(h.to_vec_le() == rev(&d), "little-endian view is the reversal");
            match H::from_slice_le(&h.to_vec_le()) {
                Ok(g) => sym::check(g == h && g.as_slice() == h.as_slice(), "reversal round-trips"),
                Err(_) => sym::check(false, "reversal round-trips"),
            }
            sym::check(h.as_byte_array().as_slice() == &d[..], "as a byte array");
            sym::check(h.into_byte_array().as_slice() == &d[..], "into a byte array");
        }
        Err(_) => sym::check(!ok, "the right length is accepted"),
    }
    match H::from_slice_le(&d) {
        Ok(h) => sym::check(ok && h.as_slice() == &rev(&d)[..], "from a little-endian slice"),
        Err(_) => sym::check(!ok, "from a little-endian slice"),
    }
    match H::from_byte_array(ByteArray::new("x", d.clone())) {
        Ok(h) => sym::check(ok && h.as_slice() == &d[..] && h.as_byte_array().name() == Some("x"), "from a byte array"),
        Err(_) => sym::check(!ok, "from a byte array"),
    }
}
/// a value with `k` symbolic bytes at `at`
fn some<H: Hashed>(kind: u64, at: u64, k: u64) -> Vec<u8> {
    let mut d: Vec<u8> = (0..width(kind)).map(|i| (i * 37 + 11) as u8).collect();
    let s = sym::vec(k);
    for (i, x) in s.iter().enumerate() {
        d[(at as usize + i) % width(kind)] = *x;
    }
    d
}
fn to_hex<H: Hashed>(kind: u64, at: u64, k: u64) {
    let d = some::<H>(kind, at, k);
    let h = match H::from_slice(&d) {
        Ok(h) => h,
        Err(_) => return sym::check(false, "right length"),
    };
    sym::check(h.to_hex_be().as_bytes() == &hex_of(&d)[..], "big-endian hex");
    sym::check(h.to_hex_le().as_bytes() == &hex_of(&rev(&d))[..], "little-endian hex");
    sym::check(format!("{}", h).as_bytes() == &hex_of(&rev(&d))[..], "displayed in little-endian hex");
}
fn digit(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// hex text of `n` characters, of which `k` from `at` on are arbitrary ASCII
fn from_hex<H: Hashed>(kind: u64, n: u64, at: u64, k: u64) {
    let mut t: Vec<u8> = (0..n as usize).map(|i| b"0123456789abcdefABCDEF"[(i * 7 + 3) % 22]).collect();
    let s = sym::vec(k);
    for (i, x) in s.iter().enumerate() {
        sym::assume(*x < 0x80);
        t[at as usize + i] = *x;
    }
    let text = unsafe { String::from_utf8_unchecked(t.clone()) };
    let mut want = Vec::new();
    let mut ok = t.len() == 2 * width(kind);
    let mut i = 0;
    while ok && i < t.len() {
        match (digit(t[i]), digit(t[i + 1])) {
            (Some(a), Some(b)) => want.push(a << 4 | b),
            _ => ok = false,
        }
        i += 2;
    }
    if ok { sym::reach("valid hex") } else { sym::reach("invalid hex") }
    match H::from_hex_be(&text) {
        Ok(h) => sym::check(ok && h.as_slice() == &want[..], "from big-endian hex"),
        Err(_) => sym::check(!ok, "from big-endian hex"),
    }
    match H::from_hex_le(&text) {
        Ok(h) => sym::check(ok && h.as_slice() == &rev(&want)[..], "from little-endian hex"),
        Err(_) => sym::check(!ok, "from little-endian hex"),
    }
}
harnesses! {
    fn c12_digest(kind, n, parts) {
        let m = sym::vec(n);
        by_kind!(kind, digest(&m, parts != 0))
    }
    fn c12_slice(kind, n) { by_kind!(kind, slice(n)) }
    fn c12_to_hex(kind, at, k) { by_kind!(kind, to_hex(at, k)) }
    fn c12_from_hex(kind, n, at, k) { by_kind!(kind, from_hex(n, at, k)) }
}
