//! C18: the JSON exchange format
use crate::sym;
use bitcoin_cash::*;
use std::borrow::Cow;
use std::sync::Arc;

type Name = Cow<'static, str>;
fn name(k: u64) -> Name {
    match k % 4 {
        0 => "a".into(),
        1 => "b".to_string().into(),
        2 => "".into(),
        // characters JSON has to escape
        _ => "q\"\\\n\u{1}\u{e9}".into(),
    }
}
/// one of all functions
fn function() -> Function {
    let t = sym::u8();
    sym::assume(t <= Function::Reverse as u8);
    let t = sym::concretize(t as u64) as u8;
    unsafe { std::mem::transmute(t) }
}
fn opt_name(k: u64) -> Option<Arc<Name>> {
    if k % 5 == 4 { None } else { Some(Arc::new(name(k))) }
}
/// byte arrays of some shapes, `n` symbolic bytes at most
fn array(kind: u64, n: u64) -> ByteArray {
    let d = || -> Arc<[u8]> { sym::vec(n).into() };
    match kind {
        0 => ByteArray::from_preimage(d(), None, Function::Plain, None),
        1 => ByteArray::from_preimage(d(), opt_name(0), Function::Plain, None),
        // any function, without name or preimage
        2 => ByteArray::from_preimage(d(), None, function(), None),
        3 => ByteArray::from_preimage(d(), opt_name(3), function(), None),
        // made from others
        4 => ByteArray::from_preimage(d(), None, function(), Some(vec![array(0, n), array(1, 1)].into())),
        5 => ByteArray::from_preimage(d(), opt_name(1), Function::Hash160, Some(vec![array(6, n)].into())),
        6 => ByteArray::from_preimage(d(), opt_name(0), Function::Plain, Some(vec![array(0, 1), array(0, 0), array(2, n)].into())),
        // made from nothing
        7 => ByteArray::from_preimage(d(), opt_name(2), Function::Num2Bin, Some(vec![].into())),
        8 => ByteArray::new("x", vec![1, 2, 3]).concat(ByteArray::new_unnamed(vec![1, 2, 3])),
        _ => Sha256d::digest(ByteArray::new("m", sym::vec(n))).as_byte_array().clone(),
    }
}
fn op(kind: u64, n: u64) -> Op {
    match kind {
        0..=9 => Op::PushByteArray { array: array(kind, n), is_minimal: sym::boolean() },
        10 => {
            let b = sym::u8();
            sym::assume(b < Opcode::FIRST_UNDEFINED_OP_VALUE as u8 && (b == 0 || b >= 0x4c));
            let b = sym::concretize(b as u64) as u8;
            match num::FromPrimitive::from_u8(b) {
                Some(c) => Op::Code(c),
                None => Op::Code(Opcode::OP_NOP),
            }
        }
        11 => {
            let b = sym::u8();
            sym::assume(b >= Opcode::FIRST_UNDEFINED_OP_VALUE as u8);
            Op::Invalid(sym::concretize(b as u64) as u8)
        }
        12 => Op::PushBoolean(sym::boolean()),
        // integers of every number of digits
        13 => Op::PushInteger(Integer::new(sym::below(200) as i32 - 100).unwrap()),
        14 => Op::PushInteger(Integer::new(if sym::boolean() { 0x7fff_ffff } else { -0x7fff_ffff }).unwrap()),
        _ => {
            let v = [0, 1, -1, 9, 10, 16, 17, -128, 255, 32767, 32768, -65536, 8_388_608, 0x7fff_fffe];
            Op::PushInteger(Integer::new(v[sym::concretize(sym::below(14)) as usize]).unwrap())
        }
    }
}
fn tagged(kind: u64, n: u64, k: u64) -> TaggedOp {
    let (p, a) = (sym::boolean(), sym::boolean());
    with_tags(kind, n, k, sym::below(12) as u32, sym::below(3) as u32, p, a)
}
fn plain(kind: u64, n: u64, k: u64) -> TaggedOp {
    with_tags(kind, n, k, 5, 0, k & 2 == 0, k & 4 == 0)
}
fn with_tags(kind: u64, n: u64, k: u64, line: u32, code: u32, names: bool, alt_names: bool) -> TaggedOp {
    let mut t = TaggedOp::from_op(op(kind, n));
    if k % 2 == 1 {
        t.src_file = name(k / 2);
        t.src_line = line + 95;
        t.src_column = std::u32::MAX - k as u32;
        t.src_code = vec![(code, name(k)), (7, name(k + 1))];
        t.pushed_names = if names { Some(vec![Some(name(k + 1)), None, Some(name(k))]) } else { None };
        t.alt_pushed_names = if alt_names { Some(vec![]) } else { Some(vec![None, Some(name(k + 2))]) };
    }
    t
}
fn same_array(a: &ByteArray, b: &ByteArray, depth: u32) {
    sym::check(a.as_slice() == b.as_slice(), "bytes kept");
    sym::check(a.name() == b.name(), "name kept");
    sym::check(a.function() == b.function(), "function kept");
    match (a.preimage(), b.preimage()) {
        (Some(x), Some(y)) => {
            sym::check(x.len() == y.len(), "number of parts kept");
            if depth > 0 {
                for (p, q) in x.iter().zip(y) {
                    same_array(p, q, depth - 1);
                }
            }
        }
        (None, None) => {}
        _ => sym::check(false, "parts kept"),
    }
}
fn same_script(a: &Script, b: &Script) {
    let (x, y) = (a.ops(), b.ops());
    sym::check(x.len() == y.len(), "number of operations kept");
    for (s, t) in x.iter().zip(y.iter()) {
        match (&s.op, &t.op) {
            (Op::Code(p), Op::Code(q)) => sym::check(*p as u8 == *q as u8, "opcode kept"),
            (Op::Invalid(p), Op::Invalid(q)) => sym::check(p == q, "undefined opcode kept"),
            (Op::PushBoolean(p), Op::PushBoolean(q)) => sym::check(p == q, "boolean kept"),
            (Op::PushInteger(p), Op::PushInteger(q)) => sym::check(p.value() == q.value(), "integer kept"),
            (Op::PushByteArray { array: p, is_minimal: m }, Op::PushByteArray { array: q, is_minimal: n }) => {
                sym::check(m == n, "minimality kept");
                same_array(p, q, 5);
            }
            _ => sym::check(false, "kind of operation kept"),
        }
        sym::check(s.src_file == t.src_file && s.src_line == t.src_line && s.src_column == t.src_column, "source position kept");
        sym::check(s.src_code == t.src_code, "source text kept");
        sym::check(s.pushed_names == t.pushed_names, "names kept");
        sym::check(s.alt_pushed_names == t.alt_pushed_names, "alt names kept");
    }
}
fn same_tx(a: &UnhashedTx, b: &UnhashedTx) {
    sym::check(a.version == b.version && a.lock_time == b.lock_time, "version and lock time kept");
    sym::check(a.inputs.len() == b.inputs.len() && a.outputs.len() == b.outputs.len(), "inputs and outputs kept");
    for (x, y) in a.inputs.iter().zip(&b.inputs) {
        same_array(x.prev_out.tx_hash.as_byte_array(), y.prev_out.tx_hash.as_byte_array(), 5);
        sym::check(x.prev_out.vout == y.prev_out.vout && x.sequence == y.sequence, "index and sequence kept");
        same_script(&x.script, &y.script);
        match (&x.lock_script, &y.lock_script) {
            (Some(p), Some(q)) => same_script(p, q),
            (None, None) => {}
            _ => sym::check(false, "lock script kept"),
        }
        sym::check(x.value == y.value && x.is_p2sh == y.is_p2sh, "value and kind kept");
        sym::check(x.sig_hash_flags == y.sig_hash_flags, "flags kept");
    }
    for (x, y) in a.outputs.iter().zip(&b.outputs) {
        sym::check(x.value == y.value, "value kept");
        same_script(&x.script, &y.script);
    }
    sym::check(a == b, "equal transaction");
}
fn there_and_back(tx: &UnhashedTx) {
    match tx_to_json(tx) {
        Ok(s) => match json_to_tx(&s) {
            Ok(t) => {
                sym::reach("imported");
                same_tx(tx, &t)
            }
            Err(_) => sym::check(false, "what is exported can be imported"),
        },
        Err(_) => sym::check(false, "every transaction can be exported"),
    }
}
/// a document with one transaction; every '@' is replaced by the next of `at`
fn document(template: &str, at: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut n = 0;
    for b in template.bytes() {
        if b == b'@' {
            out.push(at[n]);
            n += 1;
        } else {
            out.push(b);
        }
    }
    out
}
const HASH: &str = "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=";
fn doc(arrays: &str, hash: &str, array_idx: &str, file: &str, code: &str, pushed: &str, alt: &str) -> String {
    let op = |i: &str| format!("{{\"op\":{{\"PushByteArray\":{{\"array_idx\":{},\"is_minimal\":true}}}},\"src_file\":{},\"src_line\":1,\"src_column\":2,\"src_code\":[[3,{}]],\"pushed_names\":[{}],\"alt_pushed_names\":[null,{}]}}", i, file, code, pushed, alt);
    format!(
        "{{\"data\":{{\"data_b64\":[\"{}\",\"YWI=\"],\"byte_arrays\":[{}],\"strings\":[\"f\",\"g\"]}},\"version\":1,\"inputs\":[{{\"prev_out_hash\":{},\"prev_out_vout\":0,\"script\":[{}],\"sequence\":5,\"lock_script\":[],\"value\":6,\"is_p2sh\":true,\"sig_hash_flags\":[{{\"bits\":65}}]}}],\"outputs\":[{{\"value\":7,\"script\":[]}}],\"lock_time\":9}}",
        HASH, arrays, hash, op(array_idx)
    )
}
harnesses! {
    fn c18_op(kind, n, tags) {
        let tx = UnhashedTx { version: 1, inputs: vec![], outputs: vec![TxOutput { value: 1, script: Script::new(vec![tagged(kind, n, tags)]) }], lock_time: 0 };
        there_and_back(&tx);
    }
    fn c18_two(kind, kind2, n) {
        let tx = UnhashedTx { version: 1, inputs: vec![], outputs: vec![TxOutput { value: 1, script: Script::new(vec![plain(kind, n, 1), plain(kind2, n, 2)]) }], lock_time: 0 };
        there_and_back(&tx);
    }
    fn c18_tx(ni, no, k) {
        let mut tx = UnhashedTx {
            version: [2, -1, 0x7fff_ffff, -0x8000_0000][(k % 4) as usize],
            inputs: vec![],
            outputs: vec![],
            lock_time: [0, 1, 499_999_999, 0xffff_ffff][(k % 4) as usize],
        };
        for i in 0..ni {
            let mut h = [i as u8; 32];
            h[0] = sym::u8();
            h[31] = sym::u8();
            let mut t = TxInput::new(
                TxOutpoint { tx_hash: if k % 2 == 0 { Sha256d::new(h) } else { Sha256d::digest(vec![i as u8]).named("n") }, vout: [0, 0xffff_ffff, 7][((i + k) % 3) as usize] },
                Script::new(vec![plain(0, 2, k + i), plain(12, 0, k + i + 1)]),
                [0xffff_ffff, 0, 1 << 22][((i + k) % 3) as usize],
            );
            if (k + i) % 3 != 0 {
                t.lock_script = Some(Script::new(if i == 1 { vec![] } else { vec![plain(8, 0, k), plain(12, 0, 0)] }));
                t.value = Some([std::u64::MAX, 0, 546, 0x1_0000_0000][(k % 4) as usize]);
            }
            t.is_p2sh = match (k + 2 * i) % 3 { 0 => None, 1 => Some(false), _ => Some(true) };
            t.sig_hash_flags = match (k + i) % 4 { 0 => None, 1 => Some(vec![]), 2 => Some(vec![SigHashFlags::DEFAULT]), _ => Some(vec![SigHashFlags::from_u8(0xc3), SigHashFlags::from_u8((k + i) as u8 % 4 * 0x20)]) };
            tx.inputs.push(t);
        }
        for i in 0..no {
            tx.outputs.push(TxOutput { value: [0, 1, std::u64::MAX, 0x20_0000_0000_0001][((i + k) % 4) as usize], script: Script::new(if i == 0 { vec![] } else { vec![plain(12, 0, i + k), plain(1, 2, k + i)] }) });
        }
        there_and_back(&tx);
    }
    // every number a reference can be
    fn c18_reference(which) {
        let d = sym::u8();
        sym::assume(d >= b'0' && d <= b'9');
        let v = (d - b'0') as usize;
        let mut p = ["0,[1,\"Plain\",1,[0]],2"; 7];
        let plain = ["[0,\"Plain\"],[1,\"Sha256\",0],[1,\"Plain\",null,[1]]", "0", "1", "0", "0", "0", "0"];
        p.copy_from_slice(&plain);
        // limits: 3 arrays, 2 data, 2 strings
        let (ok, slot) = match which {
            0 => (v < 2, { p[0] = "[0,\"Plain\"],[@,\"Sha256\",0],[1,\"Plain\",null,[1]]"; 0 }),
            1 => (v < 2, { p[0] = "[0,\"Plain\"],[1,\"Sha256\",@],[1,\"Plain\",null,[1]]"; 0 }),
            // a preimage comes before what is made from it
            2 => (v < 2, { p[0] = "[0,\"Plain\"],[1,\"Sha256\",0],[1,\"Plain\",null,[@]]"; p[2] = "2"; 0 }),
            3 => (v < 1, { p[0] = "[0,\"Plain\"],[1,\"Sha256\",0,[@]],[1,\"Plain\",null,[1]]"; p[2] = "2"; 0 }),
            4 => (v == 0, { p[1] = "@"; 1 }),
            5 => (v < 3, { p[2] = "@"; 2 }),
            6 => (v < 2, { p[3] = "@"; 3 }),
            7 => (v < 2, { p[4] = "@"; 4 }),
            8 => (v < 2, { p[5] = "@"; 5 }),
            9 => (v < 2, { p[6] = "@"; 6 }),
            _ => (v < 2, { p[0] = "[0,\"Plain\"],@,[1,\"Plain\",null,[1]]"; 0 }),
        };
        let _ = slot;
        let t = document(&doc(p[0], p[1], p[2], p[3], p[4], p[5], p[6]), &[d]);
        let s = unsafe { String::from_utf8_unchecked(t) };
        match json_to_tx(&s) {
            Ok(tx) => {
                sym::check(ok, "a bad reference is an error");
                sym::reach("good reference");
                sym::check(tx.inputs.len() == 1 && tx.outputs.len() == 1, "inputs and outputs");
                there_and_back(&tx);
            }
            Err(_) => {
                sym::check(!ok, "a good reference is accepted");
                sym::reach("bad reference");
            }
        }
    }
    // circles of several arrays; large numbers
    fn c18_circle(which) {
        let (arrays, n) = match which {
            0 => ("[0,\"Plain\",0,[0]],1", 0),
            1 => ("[0,\"Plain\",0,[1]],[1,\"Plain\",0,[0]]", 0),
            2 => ("0,[1,\"Plain\",0,[2]],[1,\"Plain\",0,[3]],[1,\"Plain\",0,[1]]", 1),
            3 => ("0,[1,\"Plain\",0,[0,0,1]]", 1),
            4 => ("0,[1,\"Plain\",0,[18446744073709551615]]", 1),
            _ => ("0,[1,\"Plain\",0,[@@]]", 1),
        };
        let (a, b) = (sym::u8(), sym::u8());
        sym::assume(a >= b'1' && a <= b'9' && b >= b'0' && b <= b'9');
        let idx = if n == 1 { "1" } else { "0" };
        let t = document(&doc(arrays, "0", idx, "0", "0", "0", "0"), &[a, b]);
        let s = unsafe { String::from_utf8_unchecked(t) };
        sym::check(json_to_tx(&s).is_err(), "circular and far references are errors");
    }
    // a valid document with some bytes replaced by anything
    fn c18_bytes(at, n) {
        let mut s = doc("0,[1,\"Sha256\",0,[0]],[1,\"Plain\",1],1", "0", "1", "0", "1", "null,0", "1").into_bytes();
        let at = at as usize;
        let n = n as usize;
        if at + n > s.len() {
            return;
        }
        for i in at..at + n {
            let b = sym::u8();
            sym::assume(b < 0x80);
            s[i] = b;
        }
        let s = unsafe { String::from_utf8_unchecked(s) };
        if let Ok(tx) = json_to_tx(&s) {
            sym::check(tx.ser().len() > 10, "a transaction or an error");
        }
    }
    // contents of data: any base64 text
    fn c18_base64(n, pos) {
        let c = sym::vec(n);
        let mut s = String::from("AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=");
        let mut t = vec![];
        for (i, b) in s.bytes().enumerate() {
            if i >= pos as usize && i < (pos + n) as usize {
                sym::assume(c[i - pos as usize] < 0x80);
                t.push(c[i - pos as usize]);
            } else {
                t.push(b);
            }
        }
        s = unsafe { String::from_utf8_unchecked(t) };
        let d = doc("0,1", "0", "1", "0", "1", "null,0", "1").replace(HASH, &s);
        if let Ok(tx) = json_to_tx(&d) {
            sym::check(tx.inputs[0].prev_out.tx_hash.as_slice().len() == 32, "hashes have their width");
        }
    }
}
