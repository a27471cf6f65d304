//! C13: CashAddr strings
use crate::sym;
use bitcoin_cash::*;

const SET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
const PREFIXES: [&str; 4] = ["bitcoincash", "simpleledger", "redridinghood", ""];

/// the format as specified, bit by bit
fn encode(prefix: &str, version: u8, hash: &[u8; 20]) -> Vec<u8> {
    text(prefix, &symbols(prefix, version, hash))
}
fn text(prefix: &str, symbols: &[u8]) -> Vec<u8> {
    let mut s: Vec<u8> = prefix.bytes().collect();
    s.push(b':');
    for d in symbols {
        s.push(SET[*d as usize]);
    }
    s
}
fn symbols(prefix: &str, version: u8, hash: &[u8; 20]) -> Vec<u8> {
    let mut bits = vec![];
    for b in [version].iter().chain(hash.iter()) {
        for i in (0..8).rev() {
            bits.push(b >> i & 1);
        }
    }
    while bits.len() % 5 != 0 {
        bits.push(0);
    }
    let mut five: Vec<u8> = bits.chunks(5).map(|c| c[0] << 4 | c[1] << 3 | c[2] << 2 | c[3] << 1 | c[4]).collect();
    let mut c: u64 = 1;
    let step = |c: u64, d: u8| {
        let top = c >> 35;
        let mut n = (c & 0x07ff_ffff_ff) << 5 ^ d as u64;
        for (i, g) in [0x98f2bc8e61u64, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470].iter().enumerate() {
            n ^= g & 0u64.wrapping_sub(top >> i & 1);
        }
        n
    };
    for b in prefix.bytes() {
        c = step(c, b & 31);
    }
    c = step(c, 0);
    for d in &five {
        c = step(c, *d);
    }
    for _ in 0..8 {
        c = step(c, 0);
    }
    c ^= 1;
    for i in 0..8 {
        five.push((c >> (5 * (7 - i)) & 31) as u8);
    }
    five
}
fn kind(t: u64) -> AddressType {
    if t == 0 { AddressType::P2PKH } else { AddressType::P2SH }
}
fn version(t: AddressType) -> u8 {
    match t {
        AddressType::P2PKH => 0,
        AddressType::P2SH => 8,
    }
}
fn string(b: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(b) }
}
fn lower(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| sym::ite(c.wrapping_sub(b'A') < 26, (*c | 0x20) as u64, *c as u64) as u8).collect()
}
fn is(a: &Address, t: AddressType, h: &[u8], prefix: &str) {
    sym::check(a.addr_type() == t, "type");
    sym::check(a.hash().as_slice() == h, "hash");
    sym::check(a.prefix_str() == prefix, "prefix");
    sym::check(a.prefix_kind() == Prefix::from_prefix_str(prefix), "kind of prefix");
}
/// whatever is accepted re-encodes to the same address
fn accepted(s: &[u8]) {
    let has_prefix = s.iter().any(|c| *c == b':');
    // the outcomes of parsing stay apart
    sym::merge_below(3);
    match Address::from_cash_addr(string(s.to_vec())) {
        Ok(a) => {
            sym::reach("accepted");
            let p = a.prefix_str().to_string();
            let b = Address::from_hash(&p[..], a.addr_type(), a.hash().clone());
            let mut want = vec![];
            if !has_prefix {
                want.extend_from_slice(b"bitcoincash:");
            }
            want.extend_from_slice(&lower(s));
            sym::check(b.cash_addr().as_bytes() == &want[..], "re-encodes to the same address");
            sym::check(a.cash_addr().as_bytes() == s, "keeps the text");
        }
        Err(_) => sym::reach("rejected"),
    }
}
harnesses! {
    // every hash: the specified string, and back
    fn c13_roundtrip(t, p) {
        let h = sym::arr::<20>();
        let (t, p) = (kind(t), PREFIXES[p as usize]);
        let a = Address::from_hash(p, t, Hash160::new(h));
        is(&a, t, &h, p);
        let want = encode(p, version(t), &h);
        sym::obs(a.cash_addr().as_bytes());
        sym::check(a.cash_addr().as_bytes() == &want[..], "the specified string");
        sym::merge(true);
        match Address::from_cash_addr(string(want.clone())) {
            Ok(b) => {
                sym::reach("decoded");
                is(&b, t, &h, p);
                sym::check(a == b, "equal");
            }
            Err(_) => sym::check(false, "decodes"),
        }
        if p == "bitcoincash" {
            match Address::from_cash_addr(string(want[12..].to_vec())) {
                Ok(b) => is(&b, t, &h, p),
                Err(_) => sym::check(false, "decodes without prefix"),
            }
        } else {
            sym::check(Address::from_cash_addr(string(want[p.len() + 1..].to_vec())).is_err(), "needs its prefix");
        }
        // other prefixes and owned copies
        let c = a.with_prefix(Prefix::SimpleLedger);
        is(&c, t, &h, "simpleledger");
        sym::check(c.cash_addr().as_bytes() == &encode("simpleledger", version(t), &h)[..], "the specified string with another prefix");
        let o = a.to_owned_address();
        is(&o, t, &h, p);
        sym::check(o == a && o.cash_addr() == a.cash_addr(), "owned copy");
        let o = a.clone().into_owned_address();
        is(&o, t, &h, p);
        sym::check(o == a && o.cash_addr() == a.cash_addr(), "owned copy");
    }
    // upper case is the same address
    fn c13_upper(t, p) {
        let h = sym::arr::<20>();
        let (t, p) = (kind(t), PREFIXES[p as usize]);
        let mut s = encode(p, version(t), &h);
        for c in s.iter_mut() {
            *c = sym::ite(c.wrapping_sub(b'a') < 26, (*c & 0xdf) as u64, *c as u64) as u8;
        }
        sym::merge(true);
        match Address::from_cash_addr(string(s)) {
            Ok(b) => is(&b, t, &h, p),
            Err(_) => sym::check(false, "decodes"),
        }
    }
    // one, two or three symbols of the payload replaced by any other ones
    fn c13_change(i, j, k, t, p) {
        let h = sym::arr::<20>();
        let (t, p) = (kind(t), PREFIXES[p as usize]);
        let mut s = symbols(p, version(t), &h);
        for (n, at) in [i, j, k].iter().enumerate() {
            if [i, j, k][..n].contains(at) { continue; }
            let d = sym::u8() & 31;
            sym::assume(d != 0);
            s[*at as usize] ^= d;
        }
        sym::merge(true);
        sym::check(Address::from_cash_addr(string(text(p, &s))).is_err(), "the change is noticed");
        sym::reach("change");
    }
    // eight adjacent symbols replaced in any way
    fn c13_burst(i, t, p) {
        let h = sym::arr::<20>();
        let (t, p) = (kind(t), PREFIXES[p as usize]);
        let mut s = symbols(p, version(t), &h);
        let d = sym::arr::<8>();
        let mut any = 0;
        for n in 0..8 {
            any |= d[n] & 31;
            s[i as usize + n] ^= d[n] & 31;
        }
        sym::assume(any != 0);
        sym::merge(true);
        sym::check(Address::from_cash_addr(string(text(p, &s))).is_err(), "the change is noticed");
        sym::reach("burst");
    }
    // a character that is no symbol anywhere in the payload
    fn c13_foreign(i, t, p) {
        let h = sym::arr::<20>();
        let (t, p) = (kind(t), PREFIXES[p as usize]);
        let mut s = encode(p, version(t), &h);
        let c = sym::u8();
        sym::assume(c < 128 && c != b':');
        for x in SET.iter() {
            sym::assume(c != *x);
            sym::assume(!(x.is_ascii_lowercase() && c == (*x & 0xdf)));
        }
        s[p.len() + 1 + i as usize] = c;
        sym::merge(true);
        sym::check(Address::from_cash_addr(string(s)).is_err(), "the character is noticed");
        sym::reach("foreign");
    }
    // texts: p arbitrary prefix characters and a colon (or neither), then n arbitrary characters
    fn c13_text(p, n) {
        let mut s = vec![];
        if p > 0 {
            s = sym::vec(p - 1);
            s.push(b':');
        }
        let k = s.len();
        s.extend_from_slice(&sym::vec(n));
        for (i, c) in s.iter().enumerate() {
            sym::assume(*c < 128);
            if i + 1 != k {
                sym::assume(*c != b':');
            }
        }
        accepted(&s);
    }
    // the right checksum under any payload of the wrong length or with odd padding
    fn c13_checksum(n, p) {
        let p = PREFIXES[p as usize];
        let mut five = sym::vec(n);
        for d in five.iter_mut() {
            *d &= 31;
        }
        let mut s: Vec<u8> = p.bytes().collect();
        s.push(b':');
        s.extend(checksummed(p, &five));
        accepted(&s);
    }
    // any symbols at all
    fn c13_symbols(n, p) {
        let mut d = sym::vec(n);
        for x in d.iter_mut() { *x &= 31; }
        let p = PREFIXES[p as usize];
        sym::merge_below(3);
        match Address::from_cash_addr(string(text(p, &d))) {
            Ok(a) => {
                sym::reach("accepted symbols");
                // the checksum is right, and the payload is what the address encodes to
                let n = d.len() - 8;
                let b = Address::from_hash(a.prefix_str(), a.addr_type(), a.hash().clone());
                sym::check(b.prefix_str() == p, "prefix");
                let mut want: Vec<u8> = p.bytes().collect();
                want.push(b':');
                want.extend(checksummed(p, &d[..n]));
                sym::check(b.cash_addr().as_bytes() == &want[..], "re-encodes to the same payload");
                let c = checksum(p, &d[..n]);
                for i in 0..8 {
                    sym::check(c >> (5 * (7 - i)) & 31 == d[n + i] as u64, "right checksum");
                }
                sym::merge(false);
            }
            Err(_) => sym::reach("rejected symbols"),
        }
    }
    // any text at all
    fn c13_any(n) {
        let d = sym::vec(n);
        if std::str::from_utf8(&d).is_ok() {
            if d.iter().any(|c| *c >= 128) { sym::reach("beyond ASCII") }
            let r = Address::from_cash_addr(string(d));
            sym::check(r.is_err(), "too short");
        }
    }
}
fn checksum(prefix: &str, five: &[u8]) -> u64 {
    let mut c: u64 = 1;
    let mut step = |d: u8| {
        let top = c >> 35;
        let mut n = (c & 0x07ff_ffff_ff) << 5 ^ d as u64;
        for (i, g) in [0x98f2bc8e61u64, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470].iter().enumerate() {
            n ^= g & 0u64.wrapping_sub(top >> i & 1);
        }
        c = n;
    };
    for b in prefix.bytes() {
        step(b & 31);
    }
    step(0);
    for d in five {
        step(*d);
    }
    for _ in 0..8 {
        step(0);
    }
    c ^ 1
}
fn checksummed(prefix: &str, five: &[u8]) -> Vec<u8> {
    let c = checksum(prefix, five);
    let mut v: Vec<u8> = five.iter().map(|d| SET[*d as usize]).collect();
    for i in 0..8 {
        v.push(SET[(c >> (5 * (7 - i)) & 31) as usize]);
    }
    v
}
