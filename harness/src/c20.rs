//! C20: serde forms, human-readable (JSON) and binary (bincode)
use crate::{refm, sym, txs};
use bitcoin_cash::*;
use bitcoin_cash_slp::{SlpAction, SlpToken};
use serde::{de::DeserializeOwned, Serialize};

fn json<T: Serialize + DeserializeOwned>(v: &T, same: impl Fn(&T, &T) -> bool) -> String {
    let s = match serde_json::to_string(v) {
        Ok(s) => s,
        Err(_) => {
            sym::check(false, "everything can be written as text");
            return String::new();
        }
    };
    match serde_json::from_str::<T>(&s) {
        Ok(w) => {
            sym::reach("read back from text");
            sym::check(same(v, &w), "text form gives the value back")
        }
        Err(_) => sym::check(false, "text form can be read back"),
    }
    s
}
fn binary<T: Serialize + DeserializeOwned>(v: &T, same: impl Fn(&T, &T) -> bool) -> Vec<u8> {
    let s = match bincode::serialize(v) {
        Ok(s) => s,
        Err(_) => {
            sym::check(false, "everything can be written as bytes");
            return vec![];
        }
    };
    match bincode::deserialize::<T>(&s) {
        Ok(w) => {
            sym::reach("read back from bytes");
            sym::check(same(v, &w), "binary form gives the value back")
        }
        Err(_) => sym::check(false, "binary form can be read back"),
    }
    s
}
fn merging<T: Serialize + DeserializeOwned>(v: &T, bin: bool, same: impl Fn(&T, &T) -> bool) -> Vec<u8> {
    sym::merge_below(3);
    let s = both(v, bin, same);
    sym::merge(false);
    s
}
fn both<T: Serialize + DeserializeOwned>(v: &T, bin: bool, same: impl Fn(&T, &T) -> bool) -> Vec<u8> {
    if bin { binary(v, same) } else { json(v, same).into_bytes() }
}
fn digit(v: u8) -> u8 {
    sym::ite(v < 10, (v + b'0') as u64, (v.wrapping_add(b'a' - 10)) as u64) as u8
}
fn quoted_hex(b: &[u8], reverse: bool) -> Vec<u8> {
    let mut o = vec![b'"'];
    for i in 0..b.len() {
        let x = if reverse { b[b.len() - 1 - i] } else { b[i] };
        o.push(digit(x >> 4));
        o.push(digit(x & 15));
    }
    o.push(b'"');
    o
}
macro_rules! hashes {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<Sha1>(20 $(, $a)*),
            1 => $f::<Ripemd160>(20 $(, $a)*),
            2 => $f::<Hash160>(20 $(, $a)*),
            3 => $f::<Sha256>(32 $(, $a)*),
            _ => $f::<Sha256d>(32 $(, $a)*),
        }
    };
}
fn hash<T: Hashed + Serialize + DeserializeOwned>(w: u64, bin: bool) {
    let b = sym::vec(w);
    if let Ok(h) = T::from_slice(&b) {
        let s = merging(&h, bin, |x, y| x.as_slice() == y.as_slice());
        sym::check(if bin { s == b } else { s == quoted_hex(&b, true) }, "the usual form");
    } else {
        sym::check(false, "hash of its width");
    }
}
/// how a text is to be understood
enum Hex {
    Bytes(Vec<u8>),
    Bad,
}
fn nibble(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
fn meaning(t: &[u8]) -> Hex {
    if t.len() % 2 != 0 {
        return Hex::Bad;
    }
    let mut o = vec![];
    for p in t.chunks(2) {
        match (nibble(p[0]), nibble(p[1])) {
            (Some(a), Some(b)) => o.push(a << 4 | b),
            _ => return Hex::Bad,
        }
    }
    Hex::Bytes(o)
}
/// a JSON string of `n` characters, arbitrary ones at `at..at+k`
fn text(n: u64, at: u64, k: u64) -> (String, Vec<u8>) {
    let mut t: Vec<u8> = (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 7 % 22) as usize]).collect();
    for i in at..(at + k).min(n) {
        let c = sym::u8();
        sym::assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
        t[i as usize] = c;
    }
    let mut s = vec![b'"'];
    s.extend_from_slice(&t);
    s.push(b'"');
    (unsafe { String::from_utf8_unchecked(s) }, t)
}
fn hash_text<T: Hashed + DeserializeOwned>(w: usize, s: &str, t: &[u8]) {
    let want = match meaning(t) {
        Hex::Bytes(b) if b.len() == w => Some(b),
        _ => None,
    };
    match (serde_json::from_str::<T>(s), want) {
        (Ok(h), Some(mut b)) => {
            sym::reach("good text");
            b.reverse();
            sym::check(h.as_slice() == &b[..], "the hash the text denotes")
        }
        (Err(_), None) => sym::reach("bad text"),
        (Ok(_), None) => sym::check(false, "malformed text is an error"),
        (Err(_), Some(_)) => sym::check(false, "good text is accepted"),
    }
}
fn any<T: DeserializeOwned + Serialize>(b: &[u8]) {
    if let Ok(v) = bincode::deserialize::<T>(b) {
        sym::reach("thorough: arbitrary bytes accepted");
        match bincode::serialize(&v) {
            Ok(s) => sym::check(s.len() <= b.len() && s[..] == b[..s.len()], "the bytes read are those written"),
            Err(_) => sym::check(false, "what was read can be written"),
        }
    }
}
fn any_lossy<T: DeserializeOwned + Serialize>(b: &[u8]) {
    if let Ok(v) = bincode::deserialize::<T>(b) {
        sym::check(bincode::serialize(&v).is_ok(), "what was read can be written");
    }
}
fn text_any<T: DeserializeOwned>(s: &[u8]) {
    let _ = serde_json::from_slice::<T>(s);
}
fn input(kind: u64, opt: u64) -> TxInput {
    let mut h = [7u8; 32];
    h[0] = sym::u8();
    h[31] = sym::u8();
    let mut t = TxInput::new(TxOutpoint { tx_hash: Sha256d::new(h), vout: 0xffff_fffe }, txs::script_of(&txs::script_parts(kind)), 12);
    if opt & 1 != 0 {
        t.lock_script = Some(txs::script_of(&txs::script_parts(1)));
        t.value = Some(0xffff_ffff_ffff_ffff);
    }
    if opt & 2 != 0 {
        t.is_p2sh = Some(opt & 1 == 0);
        t.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT, SigHashFlags::from_u8(0xc2)]);
    }
    t
}
fn tx(ni: u64, no: u64, kind: u64) -> UnhashedTx {
    let mut inputs = vec![];
    for i in 0..ni {
        inputs.push(input(kind, i + kind));
    }
    let mut outputs = vec![];
    for i in 0..no {
        outputs.push(TxOutput { value: i * 0x1234_5678_9abc_def0, script: txs::script_of(&txs::script_parts(kind)) });
    }
    UnhashedTx { version: -2, inputs, outputs, lock_time: 0xffff_fffe }
}
/// bytes of the script with its length in front
fn wire(kind: u64) -> (Script, Vec<u8>) {
    let p = txs::script_parts(kind);
    (txs::script_of(&p), txs::with_len(&txs::wire_of(&p)))
}
/// a length prefix around `n`, or a large one
fn limited(b: &mut [u8], n: u64) {
    let k = sym::concretize(sym::below(n + 6));
    let v = if k < n + 3 { k } else { [1 << 20, 1 << 32, u64::MAX][(k - n - 3) as usize] };
    b[..8].copy_from_slice(&v.to_le_bytes());
}
harnesses! {
    fn c20_hash(kind, bin) {
        hashes!(kind, hash, bin == 1);
    }
    fn c20_hash_text(kind, n, at, k) {
        let (s, t) = text(n, at, k);
        hashes!(kind, hash_text, &s, &t);
    }
    fn c20_pubkey(bin) {
        let b: [u8; 33] = sym::arr();
        let s = merging(&Pubkey::new(b), bin == 1, |x, y| x.as_slice() == y.as_slice());
        if bin == 0 {
            sym::check(s == quoted_hex(&b, false), "the usual form");
        } else {
            sym::check(s[s.len() - 33..] == b[..], "the usual form");
        }
    }
    fn c20_pubkey_text(n, at, k) {
        let (s, t) = text(n, at, k);
        let want = match meaning(&t) { Hex::Bytes(b) if b.len() == 33 => Some(b), _ => None };
        match (serde_json::from_str::<Pubkey>(&s), want) {
            (Ok(h), Some(b)) => {
                sym::reach("good text");
                sym::check(h.as_slice() == &b[..], "the key the text denotes")
            }
            (Err(_), None) => sym::reach("bad text"),
            _ => sym::check(false, "exactly 66 hex digits"),
        }
    }
    fn c20_bytes(n, bin) {
        let b = sym::vec(n);
        let s = merging(&ByteArray::new("name", b.clone()), bin == 1, |x, y| x == y);
        if bin == 0 {
            sym::check(s == quoted_hex(&b, false), "the usual form");
        } else {
            sym::check(s[s.len() - n as usize..] == b[..], "the usual form");
        }
    }
    fn c20_bytes_text(n) {
        let (s, t) = text(n, 0, n);
        match (serde_json::from_str::<ByteArray>(&s), meaning(&t)) {
            (Ok(h), Hex::Bytes(b)) => {
                sym::reach("good text");
                sym::check(h.as_slice() == &b[..], "the bytes the text denotes")
            }
            (Err(_), Hex::Bad) => sym::reach("bad text"),
            _ => sym::check(false, "pairs of hex digits"),
        }
    }
    fn c20_script(kind, bin) {
        let (s, w) = wire(kind);
        let t = merging(&s, bin == 1, |x, y| x.ser().as_slice() == y.ser().as_slice() && x.ops().len() == y.ops().len());
        if bin == 0 {
            sym::check(t == quoted_hex(&w, false), "the usual form");
        } else {
            sym::check(t[t.len() - w.len()..] == w[..], "the usual form");
        }
    }
    fn c20_script_text(n) {
        let (s, t) = text(n, 0, n);
        let want = match meaning(&t) { Hex::Bytes(b) => Script::deser(b.into()).ok(), Hex::Bad => None };
        match (serde_json::from_str::<Script>(&s), want) {
            (Ok(a), Some(b)) => {
                sym::reach("good text");
                sym::check(a.ser().as_slice() == b.ser().as_slice(), "the script the text denotes")
            }
            (Err(_), None) => sym::reach("bad text"),
            _ => sym::check(false, "the script or an error"),
        }
    }
    fn c20_address(ty, prefix, bin) {
        let h: [u8; 20] = sym::arr();
        let p = ["bitcoincash", "bchtest", "simpleledger", "redridinghood"][prefix as usize % 4];
        let t = if ty == 0 { AddressType::P2PKH } else { AddressType::P2SH };
        let a = Address::from_hash(p, t, Hash160::new(h));
        let want = a.cash_addr().to_string();
        let same = |x: &Address<'static>, y: &Address<'static>| x.hash() == y.hash() && x.addr_type() == y.addr_type() && x.prefix_str() == y.prefix_str() && x.prefix_kind() == y.prefix_kind() && x.cash_addr() == y.cash_addr();
        let s = if bin == 1 {
            binary(&a, same)
        } else {
            match serde_json::to_string(&a) {
                Ok(s) => s.into_bytes(),
                Err(_) => return sym::check(false, "everything can be written as text"),
            }
        };
        if bin == 0 {
            sym::check(s[1..s.len() - 1] == *want.as_bytes() && s[0] == b'"' && s[s.len() - 1] == b'"', "the address string");
            let mut q = vec![b'"'];
            q.extend(refm::cashaddr(p, if ty == 0 { 0 } else { 8 }, &h));
            q.push(b'"');
            sym::check(q == s, "the specified string");
        } else {
            sym::check(s.len() == 4 + 20 + 8 + p.len() && s[4..24] == h[..] && s[32..] == *p.as_bytes(), "type, hash and prefix");
        }
    }
    // and back from text, for any value of one byte of the hash
    fn c20_address_back(ty, prefix, at) {
        let mut h = *b"an address from text";
        h[at as usize] = sym::u8();
        let p = ["bitcoincash", "bchtest", "simpleledger", "redridinghood"][prefix as usize % 4];
        let t = if ty == 0 { AddressType::P2PKH } else { AddressType::P2SH };
        json(&Address::from_hash(p, t, Hash160::new(h)), |x, y| x.hash() == y.hash() && x.addr_type() == y.addr_type() && x.prefix_str() == y.prefix_str() && x.prefix_kind() == y.prefix_kind() && x.cash_addr() == y.cash_addr());
    }
    // wrong text where an address belongs
    fn c20_address_text(at, k) {
        let good = b"\"bitcoincash:qpm2qsznhks23z7629mms6s4cwef74vcwvy22gdx6a\"";
        let mut s = good.to_vec();
        let mut changed = false;
        for i in at..(at + k).min(s.len() as u64) {
            let c = sym::u8();
            // letters in the other case are accepted leniently
            sym::assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\' && !(c >= b'A' && c <= b'Z'));
            changed |= s[i as usize] != c;
            s[i as usize] = c;
        }
        let r = serde_json::from_slice::<Address<'static>>(&s);
        match r {
            Ok(a) => {
                sym::check(!changed, "a damaged address is an error");
                sym::check(a.cash_addr().as_bytes() == &good[1..good.len() - 1], "the address itself");
            }
            Err(_) => sym::check(changed, "the address is accepted"),
        }
    }
    fn c20_integer(which) {
        let v: i32 = if which == 99 { sym::below(200) as i32 - 100 } else { [0, 1, -1, 127, 128, -255, 256, 32767, -32768, 65536, 999_999, 8_388_608, -16_777_216, 1_000_000_000, 0x7fff_ffff, -0x7fff_ffff][which as usize] };
        if let Ok(i) = Integer::new(v) {
            json(&i, |x, y| x.value() == y.value());
            binary(&i, |x, y| x.value() == y.value());
        }
        if let Ok(i) = UInteger::new(v) {
            sym::check(v >= 0, "unsigned");
            json(&i, |x, y| x.value() == y.value());
            binary(&i, |x, y| x.value() == y.value());
        }
    }
    fn c20_integer_bin(unsigned) {
        let v = sym::i32();
        let b = v.to_le_bytes();
        let (r, ok) = if unsigned == 1 {
            (bincode::deserialize::<UInteger>(&b).ok().map(|x| x.value()), v >= 0)
        } else {
            (bincode::deserialize::<Integer>(&b).ok().map(|x| x.value()), v != -0x8000_0000)
        };
        match r {
            Some(x) => {
                sym::reach("in range");
                sym::check(ok && x == v, "the integer");
                if unsigned == 1 {
                    if let Ok(i) = UInteger::new(v) { sym::check(bincode::serialize(&i).map_or(false, |s| s[..] == b[..]), "its bytes"); }
                } else if let Ok(i) = Integer::new(v) {
                    sym::check(bincode::serialize(&i).map_or(false, |s| s[..] == b[..]), "its bytes");
                }
            }
            None => {
                sym::reach("out of range");
                sym::check(!ok, "integers in range are accepted")
            }
        }
    }
    // decimal text: `n` digits after a fixed beginning
    fn c20_integer_text(which, n, unsigned) {
        let start = ["", "-", "1", "21474", "-21474", "214748364", "-214748364", "922337203685477580", "-922337203685477580", "1844674407370955161"][which as usize];
        let mut s = start.as_bytes().to_vec();
        let mut v: i128 = 0;
        for c in start.bytes() {
            if c != b'-' { v = v.wrapping_mul(10).wrapping_add((c - b'0') as i128); }
        }
        for i in 0..n {
            let d = sym::u8();
            sym::assume(d < 10);
            // no leading zeros
            if i == 0 && n > 1 && (start.is_empty() || start == "-") { sym::assume(d > 0); }
            s.push(d + b'0');
            v = v.wrapping_mul(10).wrapping_add(d as i128);
        }
        if start.starts_with('-') { v = -v; }
        let lo = if unsigned == 1 { 0 } else { -0x7fff_ffff };
        let r = if unsigned == 1 { serde_json::from_slice::<UInteger>(&s).ok().map(|x| x.value()) } else { serde_json::from_slice::<Integer>(&s).ok().map(|x| x.value()) };
        match r {
            Some(x) => {
                sym::reach("in range");
                sym::check(v == x as i128 && v >= lo && v <= 0x7fff_ffff, "the integer the text denotes, if in range")
            }
            // "-0" reads as a fraction
            None => {
                sym::reach("out of range");
                sym::check(v < lo || v > 0x7fff_ffff || (v == 0 && start == "-"), "integers in range are accepted")
            }
        }
    }
    fn c20_tx(ni, no, kind, bin) {
        let t = tx(ni, no, kind);
        merging(&t, bin == 1, |x, y| x == y && x.ser().as_slice() == y.ser().as_slice());
        let t = t.hashed();
        merging(&t, bin == 1, |x, y| x.hash() == y.hash() && x.raw() == y.raw() && x.inputs() == y.inputs() && x.outputs() == y.outputs() && x.version() == y.version() && x.lock_time() == y.lock_time());
    }
    fn c20_parts(which, bin) {
        let bin = bin == 1;
        match which {
            0 => { merging(&TxOutpoint { tx_hash: Sha256d::new(sym::arr()), vout: 77 }, bin, |x, y| x == y); }
            1 => { merging(&SigHashFlags::from_u8(sym::below(0x80) as u8), bin, |x, y| x == y); }
            2 => { merging(&UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(sym::arr()), vout: 0 }, sequence: 5, value: 1 << 60 }, bin, |x, y| x == y); }
            3 => {
                let a = [SlpAction::NonSlp, SlpAction::SlpParseError, SlpAction::SlpV1Genesis, SlpAction::SlpNft1UniqueChildSend][sym::concretize(sym::below(4)) as usize];
                merging(&SlpToken { amount: 18_446_744_073_709_551_615, is_mint_baton: sym::boolean(), action: a }, bin, |x, y| x == y);
            }
            _ => {
                let f = sym::u8();
                sym::assume(f <= Function::Reverse as u8);
                let f: Function = unsafe { std::mem::transmute(sym::concretize(f as u64) as u8) };
                merging(&f, bin, |x, y| x == y);
            }
        }
    }
    // arbitrary bytes where a value belongs
    fn c20_bin_any(kind, n) {
        let mut b = sym::vec(n);
        if kind >= 3 && kind <= 5 && n >= 8 {
            limited(&mut b, n - 8);
        }
        match kind {
            0 => any::<Sha1>(&b),
            1 => any::<Sha256d>(&b),
            2 => any::<Hash160>(&b),
            3 => any::<Pubkey>(&b),
            4 => any::<ByteArray>(&b),
            5 => any_lossy::<Script>(&b),
            6 => any::<Integer>(&b),
            7 => any::<UInteger>(&b),
            8 => any::<TxOutpoint>(&b),
            _ => any::<SigHashFlags>(&b),
        }
    }
    // an address with any type and a prefix of `n` bytes
    fn c20_address_any(n) {
        let mut b = vec![0u8; 4];
        b[0] = sym::u8();
        b.extend_from_slice(&[9u8; 20]);
        b.extend_from_slice(&n.to_le_bytes());
        b.extend_from_slice(&sym::vec(n));
        any::<Address<'static>>(&b);
    }
    // a container whose announced length is not there
    fn c20_bin_length(kind, n) {
        let mut b = vec![0; 8];
        limited(&mut b, n);
        b.extend_from_slice(&sym::vec(n));
        match kind {
            0 => any::<Pubkey>(&b),
            1 => any::<ByteArray>(&b),
            _ => any_lossy::<Script>(&b),
        }
    }
    // arbitrary short documents
    fn c20_json_any(kind, n) {
        let b = sym::vec(n);
        match kind {
            0 => text_any::<Sha256d>(&b),
            1 => text_any::<Pubkey>(&b),
            2 => text_any::<ByteArray>(&b),
            3 => text_any::<Script>(&b),
            4 => text_any::<Integer>(&b),
            5 => text_any::<UInteger>(&b),
            6 => text_any::<Address<'static>>(&b),
            _ => text_any::<SigHashFlags>(&b),
        }
    }
}
