//! C05: the two script parsers agree (with each other and with the script format)
use crate::{refm, sym};
use bitcoin_cash::*;

fn compare(d: &[u8]) {
    let a = deserialize_ops(d);
    let b = deserialize_ops_byte_array(d.to_vec().into());
    let want = refm::parse_script(d);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            sym::reach("both parse");
            sym::check(a.len() == b.len(), "same number of operations");
            for (x, y) in a.iter().zip(b.iter()) {
                match (x, y) {
                    (Op::Code(p), Op::Code(q)) => {
                        sym::reach("opcode");
                        sym::check(*p as u8 == *q as u8, "same opcode")
                    }
                    (Op::Invalid(p), Op::Invalid(q)) => {
                        sym::reach("invalid opcode");
                        sym::check(p == q, "same invalid opcode")
                    }
                    (Op::PushByteArray { array: p, is_minimal: m }, Op::PushByteArray { array: q, is_minimal: n }) => {
                        sym::reach("push");
                        sym::check(p.as_slice() == q.as_slice(), "same pushed data");
                        sym::check(m == n, "same minimality");
                    }
                    _ => sym::check(false, "same kind of operation"),
                }
            }
            match want {
                Some(w) => {
                    sym::check(w.len() == a.len(), "operations of the script format");
                    for (x, r) in a.iter().zip(w.iter()) {
                        match (x, r.data) {
                            (Op::Code(p), None) => sym::check(*p as u8 == r.op, "opcode byte"),
                            (Op::Invalid(p), None) => sym::check(*p == r.op, "invalid byte"),
                            (Op::PushByteArray { array, is_minimal }, Some((s, e))) => {
                                sym::check(array.as_slice() == &d[s..e], "pushed bytes");
                                sym::check(*is_minimal == (refm::first_byte_of_minimal_push(&d[s..e]) == r.op), "minimality");
                            }
                            _ => sym::check(false, "kind of operation"),
                        }
                    }
                }
                None => sym::check(false, "truncated push accepted"),
            }
        }
        (Err(_), Err(_)) => {
            sym::reach("both fail");
            sym::check(want.is_none(), "complete script rejected");
        }
        _ => sym::check(false, "one parser accepts what the other rejects"),
    }
}
harnesses! {
    fn c05_any(n) {
        compare(&sym::vec(n));
    }
    // a push with explicit prefix and length n (form 0: direct, 1, 2, 4: PUSHDATA), then a few bytes;
    // `missing` bytes cut off its end
    fn c05_push(form, n, missing) {
        let mut d = vec![];
        match form {
            0 => d.push(n as u8),
            1 => d.extend_from_slice(&[0x4c, n as u8]),
            2 => d.extend_from_slice(&[0x4d, n as u8, (n >> 8) as u8]),
            _ => d.extend_from_slice(&[0x4e, n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8]),
        }
        d.extend_from_slice(&sym::vec(n));
        if missing > 0 {
            let l = d.len() - missing as usize;
            d.truncate(l);
        } else {
            d.extend_from_slice(&sym::arr::<1>());
        }
        compare(&d);
    }
    // hostile announced lengths
    fn c05_hostile(k) {
        let mut d = vec![if k == 2 { 0x4d } else { 0x4e }];
        d.extend_from_slice(&sym::vec(k));
        d.extend_from_slice(&sym::arr::<3>());
        compare(&d);
    }
}
