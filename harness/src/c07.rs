//! C07: script numbers
use crate::{refm, sym};
use bitcoin_cash::encoding_utils::{encode_bool, encode_int, vec_to_int};
use bitcoin_cash::*;

harnesses! {
    fn c07_encode() {
        let v = sym::i32();
        sym::assume(v != i32::MIN);
        let out = encode_int(v);
        sym::obs(&out);
        sym::check(out.len() <= 4, "at most four bytes");
        match out.len() { 0 => sym::reach("0"), 1 => sym::reach("1"), 2 => sym::reach("2"), 3 => sym::reach("3"), _ => sym::reach("4") }
        let (neg, mag) = refm::num(&out);
        sym::check(mag == v.unsigned_abs() as u128, "magnitude");
        sym::check(neg == (v < 0), "sign");
        if let Some(&l) = out.last() {
            sym::check(l & 0x7f != 0 || (out.len() > 1 && out[out.len() - 2] & 0x80 != 0), "minimal");
        }
        match vec_to_int(&out) {
            Ok(w) => sym::check(w == v, "decodes to the integer"),
            Err(_) => sym::check(false, "own encoding decodes"),
        }
    }
    fn c07_decode(n) {
        let d = sym::vec(n);
        let (neg, mag) = refm::num(&d);
        match vec_to_int(&d) {
            Ok(v) => {
                sym::reach("value");
                sym::obs64(v as u64);
                sym::check(v as i64 as i128 == if neg { -(mag as i128) } else { mag as i128 }, "exact sign-magnitude value");
            }
            Err(_) => {
                sym::reach("overflow");
                sym::check(mag > 0x7fff_ffff, "only unrepresentable numbers are errors");
            }
        }
    }
    fn c07_op(n) {
        let d = sym::vec(n);
        let (neg, mag) = refm::num(&d);
        match Op::from_array(d).to_integer() {
            Some(v) => {
                sym::reach("push denotes an integer");
                sym::check(v.value() as i64 as i128 == if neg { -(mag as i128) } else { mag as i128 }, "integer a push denotes");
            }
            None => sym::check(mag > 0x7fff_ffff, "a push denotes no integer only if it is out of range"),
        }
    }
    fn c07_bool() {
        let b = sym::boolean();
        let e = encode_bool(b);
        match vec_to_int(&e) {
            Ok(v) => sym::check(v == b as i32, "boolean as number"),
            Err(_) => sym::check(false, "boolean decodes"),
        }
        sym::check(e.len() == b as usize, "booleans are minimal");
        match Op::PushBoolean(b).to_integer() {
            Some(v) => sym::check(v.value() == b as i32, "integer of a boolean push"),
            None => sym::check(false, "boolean push is an integer"),
        }
    }
    // small-number opcodes
    fn c07_small() {
        let n = sym::u8();
        sym::assume(n <= 0xb9 && (n == 0 || n >= 0x4f));
        let ops = match deserialize_ops(&[n]) { Ok(o) => o, Err(_) => return sym::check(false, "one opcode parses") };
        let want = if n == 0 { Some(0) } else if n == 0x4f { Some(-1) } else if n >= 0x51 && n <= 0x60 { Some(n as i32 - 0x50) } else { None };
        match (ops[0].to_integer(), want) {
            (Some(v), Some(w)) => { sym::reach("number opcode"); sym::check(v.value() == w, "number of a small-number opcode") }
            (None, None) => sym::reach("other opcode"),
            _ => sym::check(false, "exactly the small-number opcodes denote integers"),
        }
    }
}
