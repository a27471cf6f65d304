//! C14: addresses and locking scripts
use crate::sym;
use bitcoin_cash::*;

fn pick(n: usize) -> usize {
    sym::concretize(sym::below(n as u64)) as usize
}
fn opcode() -> Opcode {
    let b = sym::u8();
    sym::assume(b == 0 || b >= 0x4f && b < Opcode::FIRST_UNDEFINED_OP_VALUE as u8);
    unsafe { std::mem::transmute::<u8, Opcode>(b) }
}
fn op(kind: u64) -> Op {
    match kind {
        0 => Op::Code(opcode()),
        1 => Op::PushByteArray { array: sym::vec(20).into(), is_minimal: sym::boolean() },
        2 => Op::PushByteArray { array: sym::vec([0, 1, 19, 21, 32, 33, 65][pick(7)]).into(), is_minimal: true },
        _ => match pick(3) {
            0 => Op::PushInteger(Integer::from(sym::i16())),
            1 => Op::PushBoolean(sym::boolean()),
            _ => Op::Invalid(sym::u8()),
        },
    }
}
fn template(t: AddressType, h: &[u8]) -> Vec<u8> {
    let mut v = match t {
        AddressType::P2PKH => vec![0x76, 0xa9, 0x14],
        AddressType::P2SH => vec![0xa9, 0x14],
    };
    v.extend_from_slice(h);
    match t {
        AddressType::P2PKH => v.extend_from_slice(&[0x88, 0xac]),
        AddressType::P2SH => v.push(0x87),
    }
    v
}
fn is_code(o: &Op, c: u8) -> bool {
    match o {
        Op::Code(x) => *x as u8 == c,
        _ => false,
    }
}
fn data(o: &Op) -> Option<&[u8]> {
    match o {
        Op::PushByteArray { array, .. } => Some(array.as_slice()),
        _ => None,
    }
}
fn same(a: &Op, b: &Op) -> bool {
    match (a, b) {
        (Op::Code(x), Op::Code(y)) => *x as u8 == *y as u8,
        (Op::Invalid(x), Op::Invalid(y)) => x == y,
        (Op::PushByteArray { array: x, is_minimal: m }, Op::PushByteArray { array: y, is_minimal: n }) => x.as_slice() == y.as_slice() && m == n,
        (Op::PushBoolean(x), Op::PushBoolean(y)) => x == y,
        (Op::PushInteger(x), Op::PushInteger(y)) => x.value() == y.value(),
        _ => false,
    }
}
fn same_ops(s: &Script, ops: &[Op]) -> bool {
    s.ops().len() == ops.len() && s.ops().iter().zip(ops).all(|(x, y)| same(&x.op, y))
}
/// what the operations are, as the standard defines it
fn want(ops: &[Op]) -> (u8, Vec<u8>) {
    if ops.len() == 5 && is_code(&ops[0], 0x76) && is_code(&ops[1], 0xa9) && is_code(&ops[3], 0x88) && is_code(&ops[4], 0xac) {
        if let Some(h) = data(&ops[2]) {
            if h.len() == 20 {
                return (1, h.to_vec());
            }
        }
    }
    if ops.len() == 3 && is_code(&ops[0], 0xa9) && is_code(&ops[2], 0x87) {
        if let Some(h) = data(&ops[1]) {
            if h.len() == 20 {
                return (2, h.to_vec());
            }
        }
    }
    if ops.len() == 2 && is_code(&ops[1], 0xac) {
        if let Some(k) = data(&ops[0]) {
            return (3, k.to_vec());
        }
    }
    if ops.len() > 0 && is_code(&ops[0], 0x6a) {
        return (4, vec![]);
    }
    (0, vec![])
}
fn classify(ops: &[Op]) {
    let s = Script::from_ops(ops.iter().cloned());
    let (w, d) = want(ops);
    let dest = script_destination("bitcoincash", &s);
    sym::check(dest.address().is_some() == (w == 1 || w == 2), "address() exactly for address templates");
    match dest {
        Destination::Address(a) => {
            let t = if w == 1 { AddressType::P2PKH } else { AddressType::P2SH };
            sym::check(w == 1 || w == 2, "address for a standard template only");
            sym::check(a.addr_type() == t, "address type");
            sym::check(a.hash().as_slice() == &d[..], "address hash");
            sym::check(a.prefix_str() == "bitcoincash", "address prefix");
            if w == 1 { sym::reach("p2pkh") } else { sym::reach("p2sh") }
            // and back
            let back: Script = (&a).into();
            sym::check(back.ser_ops().as_slice() == &template(t, &d)[..], "the address stands for this script");
        }
        Destination::P2PK(k) => {
            sym::reach("p2pk");
            sym::check(w == 3 && k == d, "p2pk");
        }
        Destination::Nulldata(v) => {
            sym::reach("nulldata");
            sym::check(w == 4 && v.len() + 1 == ops.len() && v.iter().zip(&ops[1..]).all(|(x, y)| same(x, y)), "op_return data");
        }
        Destination::Unknown(u) => {
            sym::reach("unknown");
            sym::check(w == 0, "a standard script is recognised");
            sym::check(same_ops(&u, ops), "unknown scripts are given back");
        }
    }
}
harnesses! {
    // the locking script of every address, and back
    fn c14_address(which) {
        let h = sym::arr::<20>();
        let t = if which == 0 { AddressType::P2PKH } else { AddressType::P2SH };
        let a = Address::from_hash(Prefix::BitcoinCash, t, Hash160::new(h));
        let s: Script = (&a).into();
        sym::obs(s.ser_ops().as_slice());
        sym::check(s.ser_ops().as_slice() == &template(t, &h)[..], "standard template");
        match a.p2pkh_script() {
            Ok(x) => sym::check(t == AddressType::P2PKH && Script::from(x).ser_ops().as_slice() == &template(t, &h)[..], "p2pkh script"),
            Err(_) => sym::check(t == AddressType::P2SH, "p2pkh script exactly for p2pkh addresses"),
        }
        match script_destination("bitcoincash", &s) {
            Destination::Address(b) => {
                sym::check(b.hash().as_slice() == &h && b.addr_type() == t && b.prefix_str() == "bitcoincash", "same address");
                sym::check(a == b, "equal address");
            }
            _ => sym::check(false, "classified as an address"),
        }
        // the same through the wire
        match Script::deser_ops(template(t, &h).into()) {
            Ok(s) => match script_destination("bitcoincash", &s) {
                Destination::Address(b) => sym::check(b.hash().as_slice() == &h && b.addr_type() == t, "same address from bytes"),
                _ => sym::check(false, "classified as an address from bytes"),
            },
            Err(_) => sym::check(false, "template parses"),
        }
        let s: Script = a.into();
        sym::check(s.ser_ops().as_slice() == &template(t, &h)[..], "standard template (by value)");
    }
    // key and script to address
    fn c14_from(n) {
        let k = sym::arr::<33>();
        let a = Address::from_pk(Prefix::SimpleLedger, &Pubkey::new(k));
        sym::check(a.addr_type() == AddressType::P2PKH && a.prefix_kind() == Some(Prefix::SimpleLedger), "kind of address");
        sym::check(a.hash().as_slice() == Hash160::digest(k.to_vec()).as_slice(), "hash of the key");
        let d = sym::vec(n);
        let mut raw = vec![];
        for x in &d {
            raw.push(1);
            raw.push(0x20 | x & 0x1f);
        }
        let s = match Script::deser_ops(raw.clone().into()) { Ok(s) => s, Err(_) => return sym::check(false, "parses") };
        match Address::from_redeem_script(Prefix::BitcoinCash, s) {
            Ok(a) => {
                sym::check(a.addr_type() == AddressType::P2SH && a.prefix_kind() == Some(Prefix::BitcoinCash), "kind of address");
                sym::check(a.hash().as_slice() == Hash160::digest(raw).as_slice(), "hash of the redeem script");
            }
            Err(_) => sym::check(false, "address of a script"),
        }
    }
    // scripts of k operations, kinds are digits of shape in base 4
    fn c14_ops(k, shape) {
        let mut s = shape;
        let mut ops = vec![];
        for _ in 0..k {
            ops.push(op(s % 4));
            s /= 4;
        }
        classify(&ops);
    }
    // the address templates with any bytes at one position
    fn c14_near(which, at, n) {
        let t = if which == 0 { AddressType::P2PKH } else { AddressType::P2SH };
        let at = at as usize;
        // bytes before the hash may turn it into code, which is fixed then
        let h = if at < 3 { (0..20).map(|i| 0x30 + 7 * i as u8).collect() } else { sym::vec(20) };
        let mut d = template(t, &h);
        let b = sym::vec(n);
        for (i, x) in b.iter().enumerate() {
            if at + i < d.len() { d[at + i] = *x } else { d.push(*x) }
        }
        if let Ok(s) = Script::deser_ops(d.into()) {
            let ops: Vec<Op> = s.ops().iter().map(|o| o.op.clone()).collect();
            classify(&ops);
        }
    }
    fn c14_any(n) {
        if let Ok(s) = Script::deser_ops(sym::vec(n).into()) {
            let ops: Vec<Op> = s.ops().iter().map(|o| o.op.clone()).collect();
            classify(&ops);
            sym::check(script_p2pkh_spend(&s).is_none(), "too short for a spend");
        }
    }
    // the unlocking script of a p2pkh output
    fn c14_spend(sig, key) {
        let s = sym::vec(sig);
        let k = sym::vec(key);
        let mut script = vec![
            Op::PushByteArray { array: s.clone().into(), is_minimal: sym::boolean() },
            Op::PushByteArray { array: k.clone().into(), is_minimal: sym::boolean() },
        ];
        let flags = s.last().copied();
        match script_p2pkh_spend(&Script::from_ops(script.clone())) {
            Some(p) => {
                sym::reach("spend");
                sym::check(key == 33 && p.pubkey.as_slice() == &k[..], "the key");
                sym::check(flags == Some(p.sig_hash_flags.bits() as u8) && p.sig_hash_flags.bits() < 256, "the flags");
            }
            None => match flags {
                Some(f) => {
                    sym::reach("no spend");
                    // bit 5 belongs to no flag
                    sym::check(key != 33 || f & 0x20 != 0, "a spend is recognised");
                }
                None => sym::reach("no signature"),
            },
        }
        script.push(op(0));
        sym::check(script_p2pkh_spend(&Script::from_ops(script.clone())).is_none(), "one operation more is none");
        script.swap(0, 2);
        sym::check(script_p2pkh_spend(&Script::from_ops(script.clone())).is_none(), "one operation more is none");
        script.pop();
        sym::check(script_p2pkh_spend(&Script::from_ops(script)).is_none(), "an opcode is no signature");
    }
}
