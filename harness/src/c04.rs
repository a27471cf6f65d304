//! C04: transactions on the wire
use crate::{refm, sym};
use bitcoin_cash::*;
use sha2::Digest;

fn sha256d(b: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(&sha2::Sha256::digest(b)).to_vec()
}
/// a script and its wire form; kinds of scripts by number
fn script(kind: u64) -> (Script, Vec<u8>) {
    match kind {
        0 => (Script::default(), vec![]),
        1 => {
            let d = sym::vec(3);
            let mut w = vec![3];
            w.extend_from_slice(&d);
            w.push(0x87);
            w.push(0xba);
            (Script::from_ops(vec![Op::from_array(d), Op::Code(Opcode::OP_EQUAL), Op::Invalid(0xba)]), w)
        }
        2 => {
            let d = sym::vec(20);
            let mut w = vec![0x76, 0xa9, 20];
            w.extend_from_slice(&d);
            w.extend_from_slice(&[0x88, 0xac]);
            (
                Script::from_ops(vec![
                    Op::Code(Opcode::OP_DUP),
                    Op::Code(Opcode::OP_HASH160),
                    Op::from_array(d),
                    Op::Code(Opcode::OP_EQUALVERIFY),
                    Op::Code(Opcode::OP_CHECKSIG),
                ]),
                w,
            )
        }
        3 => {
            // longer than one CompactSize byte
            let d = sym::vec(300);
            let mut w = vec![0x4d, 44, 1];
            w.extend_from_slice(&d);
            (Script::from_ops(vec![Op::from_array(d)]), w)
        }
        _ => {
            let b = sym::vec(2);
            let i = sym::boolean();
            let w = vec![if i { 0x51 } else { 0 }, 0x4c, 0, 0x4c, 0x4c];
            let mut w2 = w;
            w2.extend_from_slice(&[0x41; 74]);
            w2.extend_from_slice(&b);
            let mut long = vec![0x41; 74];
            long.extend_from_slice(&b);
            (
                Script::from_ops(vec![
                    Op::PushBoolean(i),
                    Op::PushByteArray { array: ByteArray::from(Vec::<u8>::new()), is_minimal: false },
                    Op::from_array(long),
                ]),
                w2,
            )
        }
    }
}
fn same_visible(a: &UnhashedTx, b: &UnhashedTx) {
    sym::check(a.version == b.version, "version kept");
    sym::check(a.lock_time == b.lock_time, "lock time kept");
    sym::check(a.inputs.len() == b.inputs.len(), "number of inputs kept");
    sym::check(a.outputs.len() == b.outputs.len(), "number of outputs kept");
    for (x, y) in a.inputs.iter().zip(b.inputs.iter()) {
        sym::check(x.prev_out.tx_hash.as_slice() == y.prev_out.tx_hash.as_slice(), "previous tx hash kept");
        sym::check(x.prev_out.vout == y.prev_out.vout, "output index kept");
        sym::check(x.sequence == y.sequence, "sequence kept");
        sym::check(x.script.ser_ops().as_slice() == y.script.ser_ops().as_slice(), "unlocking script kept");
    }
    for (x, y) in a.outputs.iter().zip(b.outputs.iter()) {
        sym::check(x.value == y.value, "value kept");
        sym::check(x.script.ser_ops().as_slice() == y.script.ser_ops().as_slice(), "locking script kept");
    }
}
/// a tx with symbolic fields and its wire form
fn build(ni: u64, no: u64, k: u64) -> (UnhashedTx, Vec<u8>) {
    let version = sym::i32();
    let lock_time = sym::u32();
    let mut w = version.to_le_bytes().to_vec();
    w.extend_from_slice(&refm::var_int(ni));
    let mut inputs = vec![];
    for i in 0..ni {
        let (s, sw) = script((k + i) % 5);
        let h = sym::arr::<32>();
        let vout = sym::u32();
        let sequence = sym::u32();
        let mut t = TxInput::new(TxOutpoint { tx_hash: Sha256d::new(h), vout }, s, sequence);
        if i == 0 {
            // not visible on the wire
            t.value = Some(sym::u64());
            t.lock_script = Some(Script::from_ops(vec![Op::Code(Opcode::OP_DUP)]));
            t.is_p2sh = Some(sym::boolean());
            t.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT]);
        }
        inputs.push(t);
        w.extend_from_slice(&h);
        w.extend_from_slice(&vout.to_le_bytes());
        w.extend_from_slice(&refm::var_int(sw.len() as u64));
        w.extend_from_slice(&sw);
        w.extend_from_slice(&sequence.to_le_bytes());
    }
    w.extend_from_slice(&refm::var_int(no));
    let mut outputs = vec![];
    for i in 0..no {
        let (s, sw) = script((k + ni + i) % 5);
        let value = sym::u64();
        outputs.push(TxOutput { value, script: s });
        w.extend_from_slice(&value.to_le_bytes());
        w.extend_from_slice(&refm::var_int(sw.len() as u64));
        w.extend_from_slice(&sw);
    }
    w.extend_from_slice(&lock_time.to_le_bytes());
    (UnhashedTx { version, inputs, outputs, lock_time }, w)
}
/// reference decoder: end and whether everything is in its shortest form
fn ref_script(d: &[u8], at: usize) -> Option<(usize, bool)> {
    let (n, k, c) = refm::read_var(&d[at..])?;
    if n > (d.len() - at - k) as u64 {
        return None;
    }
    let (s, e) = (at + k, at + k + n as usize);
    let mut c = c;
    for op in refm::parse_script(&d[s..e])? {
        if let Some((a, b)) = op.data {
            let data = &d[s + a..s + b];
            // the shortest prefix with a length; or nothing, as PUSHDATA1 of zero bytes
            if op.op != refm::push_prefixed(data)[0] {
                c = false;
            }
        }
    }
    Some((e, c))
}
fn ref_tx(d: &[u8]) -> Option<(usize, bool)> {
    let mut at = 4;
    let mut canon = true;
    if d.len() < 4 {
        return None;
    }
    let (n, k, c) = refm::read_var(&d[at..])?;
    canon &= c;
    at += k;
    for _ in 0..n {
        at += 36;
        if at > d.len() {
            return None;
        }
        let (e, c) = ref_script(d, at)?;
        canon &= c;
        at = e + 4;
        if at > d.len() {
            return None;
        }
    }
    let (n, k, c) = refm::read_var(&d[at..])?;
    canon &= c;
    at += k;
    for _ in 0..n {
        at += 8;
        if at > d.len() {
            return None;
        }
        let (e, c) = ref_script(d, at)?;
        canon &= c;
        at = e;
    }
    at += 4;
    if at > d.len() {
        return None;
    }
    Some((at, canon))
}
fn decode(d: &[u8]) {
    let r = UnhashedTx::deser_rest(d.to_vec().into());
    let strict = UnhashedTx::deser(d.to_vec().into());
    match (ref_tx(d), r) {
        (Some((end, canon)), Ok((tx, rest))) => {
            sym::reach("decoded");
            sym::check(rest.as_slice() == &d[end..], "rest is what follows");
            sym::check(strict.is_ok() == (end == d.len()), "strict decode succeeds exactly without leftovers");
            let again = tx.ser();
            sym::obs(again.as_slice());
            if canon {
                sym::reach("canonical");
                sym::check(again.as_slice() == &d[..end], "canonical input re-encodes to the same bytes");
            }
        }
        (None, Err(_)) => {
            sym::reach("rejected");
            sym::check(strict.is_err(), "strict decode rejects too");
        }
        (None, Ok(_)) => sym::check(false, "an incomplete transaction is an error"),
        (Some((_, canon)), Err(_)) => sym::check(!canon, "a canonical transaction decodes"),
    }
}
harnesses! {
    fn c04_wire(ni, no, k) {
        let (tx, w) = build(ni, no, k);
        let out = tx.ser();
        sym::obs(out.as_slice());
        sym::check(out.as_slice() == &w[..], "fields in consensus order");
        match UnhashedTx::deser(out.clone()) {
            Ok(b) => {
                same_visible(&tx, &b);
                for i in &b.inputs {
                    sym::check(i.value.is_none() && i.lock_script.is_none() && i.is_p2sh.is_none() && i.sig_hash_flags.is_none(), "nothing invented");
                }
            }
            Err(_) => sym::check(false, "own encoding decodes"),
        }
        let extra = sym::arr::<2>();
        let mut long = w.clone();
        long.extend_from_slice(&extra);
        match UnhashedTx::deser_rest(long.clone().into()) {
            Ok((b, rest)) => {
                same_visible(&tx, &b);
                sym::check(rest.as_slice() == &extra[..], "following bytes left over");
            }
            Err(_) => sym::check(false, "own encoding decodes before other bytes"),
        }
        sym::check(UnhashedTx::deser(long.into()).is_err(), "strict decode rejects leftovers");
    }
    fn c04_id(ni, no, k) {
        let (tx, w) = build(ni, no, k);
        let h = tx.clone().hashed();
        sym::obs(h.raw().as_slice());
        sym::check(h.raw().as_slice() == &w[..], "raw form is the wire form");
        sym::check(h.hash().as_slice() == &sha256d(&w)[..], "id is the double SHA-256 of the bytes");
        same_visible(h.unhashed_tx(), &tx);
        sym::check(h.version() == tx.version && h.lock_time() == tx.lock_time, "accessors");
        sym::check(h.inputs().len() == tx.inputs.len() && h.outputs().len() == tx.outputs.len(), "accessors");
        // a hashed tx on the wire: its raw bytes as a string
        let s = h.ser();
        let mut want = refm::var_int(w.len() as u64);
        want.extend_from_slice(&w);
        sym::check(s.as_slice() == &want[..], "hashed tx is written as its raw bytes");
        match Tx::deser(s) {
            Ok(b) => {
                sym::check(b.raw().as_slice() == &w[..], "raw kept");
                sym::check(b.hash().as_slice() == h.hash().as_slice(), "id kept");
                same_visible(b.unhashed_tx(), &tx);
            }
            Err(_) => sym::check(false, "hashed tx decodes"),
        }
        same_visible(&h.into_unhashed_tx(), &tx);
    }
    // every byte string
    fn c04_any(n) {
        decode(&sym::vec(n));
    }
    // any script bytes of length s inside a tx with one input and/or output
    fn c04_script(kind, s, extra) {
        let mut d = sym::vec(4);
        if kind != 1 {
            d.push(1);
            d.extend_from_slice(&sym::vec(36));
            d.push(s as u8);
            d.extend_from_slice(&sym::vec(s));
            d.extend_from_slice(&sym::vec(4));
        } else {
            d.push(0);
        }
        if kind != 0 {
            d.push(1);
            d.extend_from_slice(&sym::vec(8));
            d.push(s as u8);
            d.extend_from_slice(&sym::vec(s));
        } else {
            d.push(0);
        }
        d.extend_from_slice(&sym::vec(4 + extra));
        decode(&d);
    }
    // one input and one output whose script length bytes are arbitrary
    fn c04_lengths(tail) {
        let mut d = vec![1, 0, 0, 0, 1];
        d.extend_from_slice(&[0x51; 36]);
        d.push(sym::u8());
        d.extend_from_slice(&[0x52; 5]);
        d.push(1);
        d.extend_from_slice(&[0x53; 8]);
        d.push(sym::u8());
        d.extend_from_slice(&[0x54]);
        d.extend_from_slice(&vec![0; tail as usize]);
        decode(&d);
    }
    // hostile counts
    fn c04_count(form, which) {
        let mut d = vec![1, 0, 0, 0];
        let p = [0xfdu8, 0xfe, 0xff][form as usize];
        let k = [2, 4, 8][form as usize];
        if which == 1 {
            d.push(0);
        }
        d.push(p);
        d.extend_from_slice(&sym::vec(k));
        d.extend_from_slice(&[0; 90]);
        decode(&d);
    }
    // truncated anywhere
    fn c04_cut(k, len) {
        let (_, w) = build(1, 1, k);
        let len = len as usize;
        if len >= w.len() {
            return;
        }
        sym::check(UnhashedTx::deser(w[..len].to_vec().into()).is_err(), "a truncated transaction is an error");
        sym::reach("truncated");
    }
    // a hashed tx from any bytes
    fn c04_hashed_any(n) {
        let d = sym::vec(n);
        let r = Tx::deser_rest(d.clone().into());
        if let Ok((tx, rest)) = r {
            sym::reach("hashed tx decoded");
            let (l, k, _) = refm::read_var(&d).unwrap();
            let end = k + l as usize;
            sym::check(rest.as_slice() == &d[end..], "rest is what follows");
            sym::check(tx.raw().as_slice() == &d[k..end], "raw form is the announced bytes");
            sym::check(tx.hash().as_slice() == &sha256d(&d[k..end])[..], "id is the double SHA-256 of the raw form");
            if let Some((e, true)) = ref_tx(&d[k..end]) {
                sym::check(e == end - k, "nothing left over inside");
                sym::check(tx.unhashed_tx().ser().as_slice() == &d[k..end], "content is the raw form");
            }
        }
    }
}
