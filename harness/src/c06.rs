//! C06: script serialisation
use crate::{refm, sym};
use bitcoin_cash::*;

/// the bytes an operation leaves on the stack, if it is a push
fn pushed(op: &Op) -> Option<Vec<u8>> {
    Some(match op {
        Op::PushByteArray { array, .. } => array.to_vec(),
        Op::PushBoolean(b) => if *b { vec![1] } else { vec![] },
        Op::PushInteger(i) => refm::script_num(i.value() as i64),
        Op::Code(c) => match *c as u8 {
            0 => vec![],
            0x4f => vec![0x81],
            n @ 0x51..=0x60 => vec![n - 0x50],
            _ => return None,
        },
        Op::Invalid(_) => return None,
    })
}
fn same_effect(a: &Op, b: &Op) {
    match (pushed(a), pushed(b)) {
        (Some(x), Some(y)) => {
            sym::reach("push");
            sym::check(x == y, "pushes the same value");
        }
        (None, None) => match (a, b) {
            (Op::Code(x), Op::Code(y)) => sym::check(*x as u8 == *y as u8, "same opcode"),
            (Op::Invalid(x), Op::Invalid(y)) => sym::check(x == y, "same invalid opcode"),
            _ => sym::check(false, "same kind of operation"),
        },
        _ => sym::check(false, "push stays a push"),
    }
}
/// the consensus form and a check of the round trip
fn one(op: Op, want: &[u8]) {
    match serialize_op(&op) {
        Ok(b) => {
            sym::obs(b.as_slice());
            sym::check(b.as_slice() == want, "consensus encoding");
        }
        Err(_) => sym::check(false, "serialises"),
    }
    back(vec![op], want);
}
fn back(ops: Vec<Op>, want: &[u8]) {
    let s = Script::from_ops(ops.clone());
    sym::check(s.ser_ops().as_slice() == want, "script is its operations in order");
    let mut pre = refm::var_int(want.len() as u64);
    pre.extend_from_slice(want);
    sym::check(s.ser().as_slice() == &pre[..], "script field has its length in front");
    match serialize_ops(ops.iter()) {
        Ok(b) => sym::check(b.as_slice() == want, "serialize_ops is the operations in order"),
        Err(_) => sym::check(false, "serialize_ops"),
    }
    match Script::deser_ops(want.to_vec().into()) {
        Ok(t) => {
            sym::check(t.ops().len() == ops.len(), "same number of operations");
            for (x, y) in t.ops().iter().zip(ops.iter()) {
                same_effect(&x.op, y);
            }
            sym::check(t.ser_ops().as_slice() == want, "parsed script serialises to the same bytes");
        }
        Err(_) => sym::check(false, "serialised script parses"),
    }
    match deserialize_ops(want) {
        Ok(t) => {
            sym::check(t.len() == ops.len(), "same number of operations (slice)");
            for (x, y) in t.iter().zip(ops.iter()) {
                same_effect(x, y);
            }
        }
        Err(_) => sym::check(false, "serialised script parses (slice)"),
    }
}
fn int_wire(i: i64) -> Vec<u8> {
    if i == 0 {
        vec![0]
    } else if i == -1 {
        vec![0x4f]
    } else if i >= 1 && i <= 16 {
        vec![0x50 + i as u8]
    } else {
        let b = refm::script_num(i);
        let mut w = vec![b.len() as u8];
        w.extend_from_slice(&b);
        w
    }
}
harnesses! {
    fn c06_opcode() {
        let b = sym::u8();
        // the push prefixes are not operations of their own
        sym::assume(b == 0 || b >= 0x4f);
        // obtained from the parser, so independent of the opcode table
        let op = match deserialize_ops(&[b]) {
            Ok(mut v) if v.len() == 1 => v.remove(0),
            _ => return sym::check(false, "a one-byte script parses"),
        };
        match &op {
            Op::Code(_) => sym::reach("opcode"),
            Op::Invalid(_) => sym::reach("invalid"),
            _ => sym::check(false, "plain operation"),
        }
        one(op, &[b]);
    }
    fn c06_invalid() {
        let b = sym::u8();
        sym::assume(b >= 0xba);
        match serialize_op(&Op::Invalid(b)) {
            Ok(v) => sym::check(v.as_slice() == &[b], "invalid opcodes are one byte"),
            Err(_) => sym::check(false, "invalid opcodes serialise"),
        }
    }
    fn c06_bool() {
        let b = sym::boolean();
        one(Op::PushBoolean(b), &[if b { 0x51 } else { 0 }]);
    }
    fn c06_int() {
        let i = sym::i32();
        sym::assume(i != i32::MIN);
        let int = match Integer::new(i) { Ok(i) => i, Err(_) => return sym::check(false, "valid integer") };
        one(Op::PushInteger(int), &int_wire(i as i64));
    }
    fn c06_push(n, minimal) {
        let d = sym::vec(n);
        let want = if minimal != 0 { refm::push_minimal(&d) } else { refm::push_prefixed(&d) };
        one(Op::PushByteArray { array: d.into(), is_minimal: minimal != 0 }, &want);
    }
    fn c06_push_long(n, minimal) {
        let mut d = vec![7u8; n as usize];
        let e = sym::arr::<4>();
        let l = d.len();
        d[..2].copy_from_slice(&e[..2]);
        d[l - 2..].copy_from_slice(&e[2..]);
        let want = refm::push_prefixed(&d);
        sym::alloc_limit(1 << 26);
        one(Op::PushByteArray { array: d.into(), is_minimal: minimal != 0 }, &want);
    }
    // several operations: kinds are digits of `shape` in base 5
    fn c06_script(k, shape) {
        let mut s = shape;
        let mut ops = vec![];
        let mut want = vec![];
        for _ in 0..k {
            match s % 5 {
                0 => {
                    let (c, w) = [(Opcode::OP_DUP, 0x76), (Opcode::OP_CHECKSIG, 0xac), (Opcode::OP_CODESEPARATOR, 0xab), (Opcode::OP_RETURN, 0x6a)][ops.len() % 4];
                    ops.push(Op::Code(c));
                    want.push(w);
                }
                1 => {
                    let d = sym::vec(1);
                    want.extend_from_slice(&refm::push_minimal(&d));
                    ops.push(Op::from_array(d));
                }
                2 => {
                    let d = sym::vec(2);
                    want.extend_from_slice(&refm::push_prefixed(&d));
                    ops.push(Op::PushByteArray { array: d.into(), is_minimal: false });
                }
                3 => {
                    let i = sym::u16() as i32 - 0x7000;
                    want.extend_from_slice(&int_wire(i as i64));
                    ops.push(Op::from_int(i));
                }
                _ => {
                    let b = sym::boolean();
                    want.push(if b { 0x51 } else { 0 });
                    ops.push(Op::PushBoolean(b));
                }
            }
            s /= 5;
        }
        back(ops, &want);
    }
    // any bytes: with the shortest prefix for each length they come back
    fn c06_any(n) {
        let d = sym::vec(n);
        let r = match refm::parse_script(&d) {
            Some(r) => r,
            None => return sym::check(Script::deser_ops(d.into()).is_err(), "a truncated script is an error"),
        };
        let shortest = r.iter().all(|o| match o.data {
            Some((a, b)) => refm::push_prefixed(&d[a..b])[0] == o.op,
            None => true,
        });
        match Script::deser_ops(d.clone().into()) {
            Ok(s) => {
                let again = s.ser_ops();
                sym::obs(again.as_slice());
                if shortest {
                    sym::reach("shortest prefixes");
                    sym::check(again.as_slice() == &d[..], "same bytes");
                } else {
                    sym::reach("longer prefix");
                }
                // whatever the form, values survive another round
                match Script::deser_ops(again.clone()) {
                    Ok(t) => {
                        sym::check(t.ops().len() == s.ops().len(), "same number of operations");
                        for (x, y) in s.ops().iter().zip(t.ops().iter()) {
                            same_effect(&x.op, &y.op);
                        }
                        sym::check(t.ser_ops().as_slice() == again.as_slice(), "stable");
                    }
                    Err(_) => sym::check(false, "serialised script parses"),
                }
            }
            Err(_) => sym::check(false, "a complete script parses"),
        }
    }
    // a push of n bytes with each prefix, then any opcode
    fn c06_prefix(form, n) {
        let mut d = match form {
            0 => vec![n as u8],
            1 => vec![0x4c, n as u8],
            2 => vec![0x4d, n as u8, (n >> 8) as u8],
            _ => vec![0x4e, n as u8, (n >> 8) as u8, 0, 0],
        };
        let p = d[0];
        let data = sym::vec(n);
        d.extend_from_slice(&data);
        d.push(0xac);
        match Script::deser_ops(d.clone().into()) {
            Ok(s) => {
                let out = s.ser_ops();
                let mut want = refm::push_prefixed(&data);
                let shortest = want[0] == p;
                want.push(0xac);
                if shortest {
                    sym::check(out.as_slice() == &want[..], "same bytes");
                }
                sym::check(s.ops().len() == 2, "two operations");
                sym::check(pushed(&s.ops()[0].op) == Some(data), "pushes the data");
            }
            Err(_) => sym::check(false, "a complete script parses"),
        }
    }
}
