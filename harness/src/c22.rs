//! C22: opcode numbers, names and declared stack behaviour against the consensus rules
use crate::sym;
use bitcoin_cash::*;
use num::FromPrimitive;

/// number, name, items taken and left (I number, B boolean, A bytes, T anything, h 20 bytes, H 32 bytes),
/// for operations that only rearrange: which item taken each item left is
/// "!": disabled, "?": depends on the values, not declared
const T: &[(u8, &str, &str, &str, &str)] = &[
    (0x00, "OP_0", "", "I", ""), (0x4c, "OP_PUSHDATA1", "", "", ""), (0x4d, "OP_PUSHDATA2", "", "", ""), (0x4e, "OP_PUSHDATA4", "", "", ""),
    (0x4f, "OP_1NEGATE", "", "I", ""), (0x50, "OP_RESERVED", "!", "", ""),
    (0x51, "OP_1", "", "I", ""), (0x52, "OP_2", "", "I", ""), (0x53, "OP_3", "", "I", ""), (0x54, "OP_4", "", "I", ""), (0x55, "OP_5", "", "I", ""),
    (0x56, "OP_6", "", "I", ""), (0x57, "OP_7", "", "I", ""), (0x58, "OP_8", "", "I", ""), (0x59, "OP_9", "", "I", ""), (0x5a, "OP_10", "", "I", ""),
    (0x5b, "OP_11", "", "I", ""), (0x5c, "OP_12", "", "I", ""), (0x5d, "OP_13", "", "I", ""), (0x5e, "OP_14", "", "I", ""), (0x5f, "OP_15", "", "I", ""),
    (0x60, "OP_16", "", "I", ""),
    (0x61, "OP_NOP", "", "", ""), (0x62, "OP_VER", "!", "", ""), (0x63, "OP_IF", "T", "", ""), (0x64, "OP_NOTIF", "T", "", ""), (0x65, "OP_VERIF", "!", "", ""),
    (0x66, "OP_VERNOTIF", "!", "", ""), (0x67, "OP_ELSE", "", "", ""), (0x68, "OP_ENDIF", "", "", ""), (0x69, "OP_VERIFY", "B", "", ""), (0x6a, "OP_RETURN", "", "", ""),
    (0x6b, "OP_TOALTSTACK", "T", "", ""), (0x6c, "OP_FROMALTSTACK", "", "T", ""),
    (0x6d, "OP_2DROP", "TT", "", ""), (0x6e, "OP_2DUP", "TT", "TTTT", "0101"), (0x6f, "OP_3DUP", "TTT", "TTTTTT", "012012"), (0x70, "OP_2OVER", "TTTT", "TTTTTT", "012301"),
    (0x71, "OP_2ROT", "TTTTTT", "TTTTTT", "234501"), (0x72, "OP_2SWAP", "TTTT", "TTTT", "2301"), (0x73, "OP_IFDUP", "?", "", ""), (0x74, "OP_DEPTH", "", "I", ""),
    (0x75, "OP_DROP", "T", "", ""), (0x76, "OP_DUP", "T", "TT", "00"), (0x77, "OP_NIP", "TT", "T", "1"), (0x78, "OP_OVER", "TT", "TTT", "010"),
    (0x79, "OP_PICK", "I", "T", ""), (0x7a, "OP_ROLL", "I", "T", ""), (0x7b, "OP_ROT", "TTT", "TTT", "120"), (0x7c, "OP_SWAP", "TT", "TT", "10"), (0x7d, "OP_TUCK", "TT", "TTT", "101"),
    (0x7e, "OP_CAT", "AA", "A", ""), (0x7f, "OP_SPLIT", "AI", "AA", ""), (0x80, "OP_NUM2BIN", "II", "A", ""), (0x81, "OP_BIN2NUM", "A", "I", ""), (0x82, "OP_SIZE", "A", "AI", ""),
    (0x83, "OP_INVERT", "!", "", ""), (0x84, "OP_AND", "AA", "A", ""), (0x85, "OP_OR", "AA", "A", ""), (0x86, "OP_XOR", "AA", "A", ""),
    (0x87, "OP_EQUAL", "TT", "B", ""), (0x88, "OP_EQUALVERIFY", "TT", "", ""), (0x89, "OP_RESERVED1", "!", "", ""), (0x8a, "OP_RESERVED2", "!", "", ""),
    (0x8b, "OP_1ADD", "I", "I", ""), (0x8c, "OP_1SUB", "I", "I", ""), (0x8d, "OP_2MUL", "!", "", ""), (0x8e, "OP_2DIV", "!", "", ""),
    (0x8f, "OP_NEGATE", "I", "I", ""), (0x90, "OP_ABS", "I", "I", ""), (0x91, "OP_NOT", "B", "B", ""), (0x92, "OP_0NOTEQUAL", "I", "B", ""),
    (0x93, "OP_ADD", "II", "I", ""), (0x94, "OP_SUB", "II", "I", ""), (0x95, "OP_MUL", "!", "", ""), (0x96, "OP_DIV", "II", "I", ""), (0x97, "OP_MOD", "II", "I", ""),
    (0x98, "OP_LSHIFT", "!", "", ""), (0x99, "OP_RSHIFT", "!", "", ""),
    (0x9a, "OP_BOOLAND", "BB", "B", ""), (0x9b, "OP_BOOLOR", "BB", "B", ""), (0x9c, "OP_NUMEQUAL", "II", "B", ""), (0x9d, "OP_NUMEQUALVERIFY", "II", "", ""),
    (0x9e, "OP_NUMNOTEQUAL", "II", "B", ""), (0x9f, "OP_LESSTHAN", "II", "B", ""), (0xa0, "OP_GREATERTHAN", "II", "B", ""), (0xa1, "OP_LESSTHANOREQUAL", "II", "B", ""),
    (0xa2, "OP_GREATERTHANOREQUAL", "II", "B", ""), (0xa3, "OP_MIN", "II", "I", ""), (0xa4, "OP_MAX", "II", "I", ""), (0xa5, "OP_WITHIN", "III", "B", ""),
    (0xa6, "OP_RIPEMD160", "A", "h", ""), (0xa7, "OP_SHA1", "A", "h", ""), (0xa8, "OP_SHA256", "A", "H", ""), (0xa9, "OP_HASH160", "A", "h", ""), (0xaa, "OP_HASH256", "A", "H", ""),
    (0xab, "OP_CODESEPARATOR", "", "", ""), (0xac, "OP_CHECKSIG", "AA", "B", ""), (0xad, "OP_CHECKSIGVERIFY", "AA", "", ""),
    (0xae, "OP_CHECKMULTISIG", "?", "", ""), (0xaf, "OP_CHECKMULTISIGVERIFY", "?", "", ""),
    (0xb0, "OP_NOP1", "", "", ""), (0xb1, "OP_CHECKLOCKTIMEVERIFY", "I", "I", ""), (0xb2, "OP_CHECKSEQUENCEVERIFY", "I", "I", ""),
    (0xb3, "OP_NOP4", "", "", ""), (0xb4, "OP_NOP5", "", "", ""), (0xb5, "OP_NOP6", "", "", ""), (0xb6, "OP_NOP7", "", "", ""), (0xb7, "OP_NOP8", "", "", ""),
    (0xb8, "OP_NOP9", "", "", ""), (0xb9, "OP_NOP10", "", "", ""), (0xba, "OP_CHECKDATASIG", "AAA", "B", ""), (0xbb, "OP_CHECKDATASIGVERIFY", "AAA", "", ""),
    (0xbc, "OP_REVERSEBYTES", "A", "A", ""),
];
fn row(b: u8) -> Option<&'static (u8, &'static str, &'static str, &'static str, &'static str)> {
    T.iter().find(|r| r.0 == b)
}
fn letter(t: &DataType) -> u8 {
    match *t {
        DataType::Generic => b'T',
        DataType::Integer => b'I',
        DataType::Boolean => b'B',
        DataType::ByteArray(None) => b'A',
        DataType::ByteArray(Some(20)) => b'h',
        DataType::ByteArray(Some(32)) => b'H',
        DataType::ByteArray(_) => b'?',
    }
}
fn is(types: &[DataType], want: &str, what: &str) {
    sym::check(types.len() == want.len(), what);
    for (t, w) in types.iter().zip(want.bytes()) {
        sym::check(letter(t) == w, what);
    }
}
/// an opcode that is a position below the end of the defined ones
fn defined(b: u8) -> Option<Opcode> {
    let o = Opcode::from_u8(b)?;
    if o == Opcode::FIRST_UNDEFINED_OP_VALUE { None } else { Some(o) }
}
harnesses! {
    // every byte: an opcode with the consensus number for its name, or none
    fn c22_byte() {
        let b = sym::u8();
        let b = sym::concretize(b as u64) as u8;
        match (defined(b), row(b)) {
            (Some(o), Some(r)) => {
                sym::reach("opcode");
                sym::check(o as u8 == b, "back to the same byte");
                let name: &'static str = o.into();
                sym::check(name == r.1, "the consensus name");
                sym::check(format!("{:?}", o) == r.1, "debug name");
                sym::check(o.to_string() == r.1, "display name");
                sym::check(o.is_disabled() == (r.2 == "!"), "disabled or not");
            }
            (None, None) => sym::reach("no opcode"),
            (Some(_), None) => sym::check(false, "no opcode has this number"),
            (None, Some(_)) => sym::check(false, "an opcode has this number"),
        }
    }
    // scripts: the byte alone parses to the opcode and back
    fn c22_script() {
        let b = sym::u8();
        sym::assume(b == 0 || b > 0x4e);
        let b = sym::concretize(b as u64) as u8;
        let ops = deserialize_ops(&[b]).unwrap();
        sym::check(ops.len() == 1, "one operation");
        match (&ops[0], row(b)) {
            (Op::Code(o), Some(_)) => {
                sym::reach("code");
                sym::check(*o as u8 == b, "the opcode of this byte")
            }
            (Op::Invalid(x), None) => {
                sym::reach("undefined");
                sym::check(*x == b, "the undefined byte")
            }
            // the end marker is parsed as a code
            (Op::Code(o), None) => sym::check(*o as u8 == b && *o == Opcode::FIRST_UNDEFINED_OP_VALUE, "undefined"),
            _ => sym::check(false, "opcode or undefined"),
        }
        sym::check(serialize_ops(&ops).unwrap().as_ref() == [b], "the byte again");
    }
    // declared behaviour
    fn c22_behavior() {
        let b = sym::u8();
        let b = sym::concretize(b as u64) as u8;
        let (o, r) = match (defined(b), row(b)) {
            (Some(o), Some(r)) => (o, r),
            _ => return,
        };
        sym::check(o.retains_input() == (b == 0x82 || b == 0xb1 || b == 0xb2), "keeps what it looks at");
        if r.2 == "!" || r.2 == "?" { return; }
        let v = o.behavior();
        sym::reach("behaviour");
        is(v.input_types, r.2, "items taken");
        is(v.output_types, r.3, "items left");
        match v.output_order {
            Some(order) => {
                sym::check(order.len() == r.4.len(), "a rearrangement");
                for (x, w) in order.iter().zip(r.4.bytes()) {
                    sym::check(*x == (w - b'0') as usize, "order of the items left");
                }
            }
            None => sym::check(r.4.is_empty(), "order declared"),
        }
        // the items named by the order have the declared kind
        if let Some(order) = v.output_order {
            for (i, x) in order.iter().enumerate() {
                sym::check(v.output_types[i] == v.input_types[*x], "kind of a moved item");
            }
        }
    }
    // two opcodes never share a number or a name
    fn c22_distinct() {
        let (a, b) = (sym::u8(), sym::u8());
        sym::assume(a != b);
        sym::assume(a >= 0x4c || a == 0);
        sym::assume(b == a.wrapping_add(1));
        let a = sym::concretize(a as u64) as u8;
        if let (Some(x), Some(y)) = (defined(a), defined(b)) {
            sym::reach("two");
            sym::check(x != y && x < y, "different opcodes in order");
        }
    }
    // names to opcodes
    fn c22_names(from, n) {
        for b in from..from + n {
            if let Some(r) = row(b as u8) {
                match MAP_NAME_TO_ENUM.get(r.1) {
                    Some(o) => {
                        sym::reach("named");
                        sym::check(*o as u8 == r.0, "the opcode of this name")
                    }
                    None => sym::check((0x4c..=0x4e).contains(&r.0) || r.0 == 0x50, "every name is known"),
                }
            }
        }
    }
}
