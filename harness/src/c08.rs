//! C08: minimal re-encoding
use crate::{refm, sym};
use bitcoin_cash::encoding_utils::encode_minimally;

harnesses! {
    fn c08_any(n) {
        let d = sym::vec(n);
        let mut v = d.clone();
        encode_minimally(&mut v);
        sym::obs(&v);
        let (s0, m0) = refm::num(&d);
        let (s1, m1) = refm::num(&v);
        sym::check(v.len() <= d.len(), "never longer");
        sym::check(m0 == m1, "same magnitude");
        sym::check(m0 == 0 || s0 == s1, "same sign");
        if v.len() < d.len() { sym::reach("shortened") } else { sym::reach("kept") }
        if let Some(&l) = v.last() {
            sym::check(l & 0x7f != 0 || (v.len() > 1 && v[v.len() - 2] & 0x80 != 0), "no shorter byte string denotes the number");
        }
        let mut w = v.clone();
        encode_minimally(&mut w);
        sym::check(w == v, "idempotent");
    }
    // long strings: symbolic ends around a run of zero bytes
    fn c08_long(n, k) {
        let mut d = vec![0u8; n as usize];
        let a = sym::vec(k);
        let b = sym::vec(2);
        d[..k as usize].copy_from_slice(&a);
        let l = d.len();
        d[l - 2..].copy_from_slice(&b);
        let mut v = d.clone();
        encode_minimally(&mut v);
        // the result is a prefix of the input, up to the sign bit of its last byte
        sym::check(v.len() <= d.len(), "never longer");
        let z = |x: &[u8]| { let mut i = x.len(); let mut o = 0u8; while i > 0 { i -= 1; o |= if i == x.len() - 1 { x[i] & 0x7f } else { x[i] }; } o == 0 };
        if z(&d) { sym::reach("zero"); sym::check(v.is_empty(), "zero is empty"); return; }
        sym::check(!v.is_empty(), "non-zero is not empty");
        if v.is_empty() { return; }
        let e = v.len() - 1;
        sym::check(v[..e] == d[..e], "low bytes kept");
        sym::check(v[e] & 0x80 == d[l - 1] & 0x80, "sign kept");
        sym::check(v[e] & 0x7f == if e == l - 1 { d[e] & 0x7f } else { d[e] & 0x7f }, "top bits kept");
        if e < l - 1 {
            sym::check(d[e] & 0x80 == 0 , "no value bit lost to the sign");
            sym::check(z(&d[e + 1..]), "only zeros dropped");
        }
        sym::check(v[e] & 0x7f != 0 || v[e - 1] & 0x80 != 0, "minimal");
    }
}
