//! C03: length-prefixed strings and lists
use crate::{refm, sym};
use bitcoin_cash::*;

fn bytes_rt(content: Vec<u8>) {
    let n = content.len();
    let extra = sym::arr::<3>();
    let v: ByteArray = content.clone().into();
    let out = v.ser();
    let mut want = refm::var_int(n as u64);
    want.extend_from_slice(&content);
    sym::check(out.as_slice() == &want[..], "count followed by content");
    want.extend_from_slice(&extra);
    match ByteArray::deser_rest(want.clone().into()) {
        Ok((b, rest)) => {
            sym::obs(rest.as_slice());
            sym::check(b.as_slice() == &content[..], "same content");
            sym::check(rest.as_slice() == &extra[..], "exactly the following bytes are left over");
        }
        Err(_) => sym::check(false, "own encoding decodes"),
    }
    sym::check(ByteArray::deser(want.into()).is_err(), "strict decode rejects leftovers");
    match ByteArray::deser(out) {
        Ok(b) => sym::check(b.as_slice() == &content[..], "same content (strict)"),
        Err(_) => sym::check(false, "own encoding decodes (strict)"),
    }
}
/// reference decoding of a list whose items are decoded by `item`: end of each item
fn ref_list(d: &[u8], item: &dyn Fn(&[u8]) -> Option<usize>) -> Option<(Vec<(usize, usize)>, usize)> {
    let (n, mut at, _) = refm::read_var(d)?;
    let mut v = Vec::new();
    let mut i = 0u64;
    while i < n {
        let k = item(&d[at..])?;
        v.push((at, at + k));
        at += k;
        i += 1;
    }
    Some((v, at))
}
fn ref_bytes(d: &[u8]) -> Option<usize> {
    let (n, k, _) = refm::read_var(d)?;
    if n > (d.len() - k) as u64 {
        None
    } else {
        Some(k + n as usize)
    }
}
fn list_any<T: BitcoinCode>(n: u64, item: &dyn Fn(&[u8]) -> Option<usize>, same: impl Fn(&T, &[u8]) -> bool) {
    let d = sym::vec(n);
    let r = Vec::<T>::deser_rest(d.clone().into());
    match ref_list(&d, item) {
        Some((items, end)) => match r {
            Ok((v, rest)) => {
                sym::reach("list");
                if !items.is_empty() {
                    sym::reach("non-empty list");
                }
                sym::check(v.len() == items.len(), "as many items as announced");
                for (x, (a, b)) in v.iter().zip(items.iter()) {
                    sym::check(same(x, &d[*a..*b]), "items taken from the bytes in order");
                }
                sym::check(rest.as_slice() == &d[end..], "rest is what follows the last item");
            }
            Err(_) => sym::check(false, "a complete list decodes"),
        },
        None => {
            sym::reach("incomplete list");
            sym::check(r.is_err(), "an incomplete list is an error");
        }
    }
}
fn ser_list<T: BitcoinCode>(items: Vec<T>, wire: Vec<Vec<u8>>, same: impl Fn(&T, &T) -> bool) {
    let mut want = refm::var_int(items.len() as u64);
    for w in &wire {
        want.extend_from_slice(w);
    }
    let out = items.ser();
    sym::check(out.as_slice() == &want[..], "count followed by the items");
    let extra = sym::arr::<2>();
    want.extend_from_slice(&extra);
    match Vec::<T>::deser_rest(want.into()) {
        Ok((v, rest)) => {
            sym::check(v.len() == items.len(), "same number of items");
            for (a, b) in v.iter().zip(items.iter()) {
                sym::check(same(a, b), "same items");
            }
            sym::check(rest.as_slice() == &extra[..], "following bytes left over");
        }
        Err(_) => sym::check(false, "own encoding decodes"),
    }
    let all = encode_bitcoin_code_all(items.iter());
    let joined: Vec<u8> = wire.concat();
    sym::check(all.as_slice() == &joined[..], "encode_all is the items in order");
    if !items.is_empty() {
        match decode_bitcoin_code_all::<T>(all) {
            Ok(v) => {
                sym::check(v.len() == items.len(), "decode_all: same number");
                for (a, b) in v.iter().zip(items.iter()) {
                    sym::check(same(a, b), "decode_all: same items");
                }
            }
            Err(_) => sym::check(false, "decode_all reads encode_all"),
        }
    }
}
harnesses! {
    // symbolic content of n bytes
    fn c03_bytes(n) {
        bytes_rt(sym::vec(n));
    }
    // long content: symbolic ends, fixed middle
    fn c03_bytes_long(n) {
        let mut c = vec![0x5au8; n as usize];
        let a = sym::arr::<4>();
        let l = c.len();
        c[..2].copy_from_slice(&a[..2]);
        c[l - 2..].copy_from_slice(&a[2..]);
        bytes_rt(c);
    }
    // any bytes
    fn c03_bytes_any(n) {
        let d = sym::vec(n);
        let r = ByteArray::deser_rest(d.clone().into());
        match ref_bytes(&d) {
            Some(end) => match r {
                Ok((b, rest)) => {
                    sym::reach("string");
                    let (l, k, _) = refm::read_var(&d).unwrap();
                    sym::check(b.len() as u64 == l, "announced length");
                    sym::check(b.as_slice() == &d[k..end], "content is the announced bytes");
                    sym::check(rest.as_slice() == &d[end..], "rest follows");
                }
                Err(_) => sym::check(false, "complete string decodes"),
            },
            None => {
                sym::reach("incomplete string");
                sym::check(r.is_err(), "hostile or truncated length is an error");
            }
        }
    }
    fn c03_list_any(kind, n) {
        match kind {
            0 => list_any::<u8>(n, &|d| if d.is_empty() { None } else { Some(1) }, |x, w| *x == w[0]),
            1 => list_any::<u32>(n, &|d| if d.len() < 4 { None } else { Some(4) }, |x, w| x.to_le_bytes() == w),
            2 => list_any::<ByteArray>(n, &ref_bytes, |x, w| {
                let (_, k, _) = refm::read_var(w).unwrap();
                x.as_slice() == &w[k..]
            }),
            3 => list_any::<Hash160>(n, &|d| if d.len() < 20 { None } else { Some(20) }, |x, w| x.as_slice() == w),
            _ => list_any::<Vec<u8>>(n, &ref_bytes, |x, w| {
                let (_, k, _) = refm::read_var(w).unwrap();
                &x[..] == &w[k..]
            }),
        }
    }
    fn c03_list(kind, k) {
        match kind {
            0 => {
                let v: Vec<u16> = (0..k).map(|_| sym::u16()).collect();
                let w = v.iter().map(|x| x.to_le_bytes().to_vec()).collect();
                ser_list(v, w, |a, b| a == b)
            }
            1 => {
                let v: Vec<ByteArray> = (0..k).map(|i| ByteArray::from(sym::vec(i))).collect();
                let w = v.iter().map(|x| { let mut o = refm::var_int(x.len() as u64); o.extend_from_slice(x); o }).collect();
                ser_list(v, w, |a, b| a == b)
            }
            _ => {
                let v: Vec<Sha256d> = (0..k).map(|_| Sha256d::new(sym::arr())).collect();
                let w = v.iter().map(|x| x.as_slice().to_vec()).collect();
                ser_list(v, w, |a, b| a == b)
            }
        }
    }
}
