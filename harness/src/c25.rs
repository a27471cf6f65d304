//! C25: script code
use crate::sym;
use bitcoin_cash::*;

const SEP: u8 = 0xab;
/// an operation of a kind, and whether it is a code separator
fn op(kind: u64) -> (TaggedOp, bool) {
    let mut sep = false;
    let o = match kind {
        0 => {
            // any opcode, the separator among them
            let b = sym::u8();
            sym::assume(b >= 0x4f && b < Opcode::FIRST_UNDEFINED_OP_VALUE as u8);
            sep = b == SEP;
            Op::Code(unsafe { std::mem::transmute::<u8, Opcode>(b) })
        }
        1 => {
            // data that looks like a separator is none
            Op::PushByteArray { array: sym::vec(1).into(), is_minimal: sym::boolean() }
        }
        2 => {
            let i = sym::i16();
            Op::PushInteger(Integer::from(i))
        }
        3 => Op::PushBoolean(sym::boolean()),
        _ => Op::Invalid(sym::u8()),
    };
    let mut t = TaggedOp::from_op(o);
    t.src_line = sym::u32();
    (t, sep)
}
fn same(a: &TaggedOp, b: &TaggedOp) -> bool {
    let m = match (&a.op, &b.op) {
        (Op::Code(x), Op::Code(y)) => *x as u8 == *y as u8,
        (Op::Invalid(x), Op::Invalid(y)) => x == y,
        (Op::PushByteArray { array: x, is_minimal: m }, Op::PushByteArray { array: y, is_minimal: n }) => x.as_slice() == y.as_slice() && m == n,
        (Op::PushBoolean(x), Op::PushBoolean(y)) => x == y,
        (Op::PushInteger(x), Op::PushInteger(y)) => x.value() == y.value(),
        _ => false,
    };
    m && a.src_line == b.src_line
}
fn tail(got: &Script, all: &[TaggedOp], from: usize) {
    let g = got.ops();
    sym::check(g.len() == all.len() - from, "length of the script code");
    if g.len() == all.len() - from {
        for (x, y) in g.iter().zip(&all[from..]) {
            sym::check(same(x, y), "operation of the script code");
        }
    }
}
harnesses! {
    fn c25_code(k, shape) {
        let mut s = shape;
        let mut ops = vec![];
        let mut after = vec![];
        for i in 0..k {
            let (o, sep) = op(s % 5);
            if sep {
                after.push(i as usize + 1);
            }
            ops.push(o);
            s /= 5;
        }
        let script = Script::new(ops.clone());
        tail(&script.to_script_code(None), &ops, 0);
        for (n, &from) in after.iter().enumerate() {
            if n > 0 { sym::reach("later separator") } else { sym::reach("separator") }
            tail(&script.to_script_code(Some(n)), &ops, from);
        }
        match after.first() {
            Some(&from) => tail(&script.to_script_code_first(), &ops, from),
            None => {
                sym::reach("no separator");
                tail(&script.to_script_code_first(), &ops, 0)
            }
        }
        tail(&script, &ops, 0);
    }
    // scripts read from bytes
    fn c25_bytes(n) {
        let d = sym::vec(n);
        if let Ok(s) = Script::deser_ops(d.clone().into()) {
            let r = match crate::refm::parse_script(&d) {
                Some(r) => r,
                None => return,
            };
            let ops = s.ops().to_vec();
            let mut n = 0;
            for (i, o) in r.iter().enumerate() {
                if o.op == SEP {
                    if n == 0 {
                        sym::reach("separator in bytes");
                        tail(&s.to_script_code_first(), &ops, i + 1);
                    }
                    tail(&s.to_script_code(Some(n)), &ops, i + 1);
                    n += 1;
                }
            }
            if n == 0 {
                tail(&s.to_script_code_first(), &ops, 0);
            }
            tail(&s.to_script_code(None), &ops, 0);
        }
    }
}
