//! C19: SLP token messages
use crate::{refm, sym};
use bitcoin_cash::*;
use bitcoin_cash_slp::*;

fn text(n: u64, kind: u64) -> String {
    let mut v = vec![];
    for i in 0..n {
        let b = sym::u8();
        if kind == 1 && i < 2 {
            // any two-byte character
            sym::assume(if i == 0 { b >= 0xc2 && b <= 0xdf } else { b >= 0x80 && b <= 0xbf });
        } else {
            sym::assume(b < 0x80);
        }
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn token_type(k: u64) -> (SlpTokenType, u8) {
    match k {
        0 => (SlpTokenType::Fungible, 1),
        1 => (SlpTokenType::Nft1Child, 0x41),
        _ => (SlpTokenType::Nft1Group, 0x81),
    }
}
/// a push as SLP wants it: length-prefixed, whatever the data
fn push(w: &mut Vec<u8>, d: &[u8]) {
    w.extend_from_slice(&refm::push_prefixed(d));
}
fn expect(out: &TxOutput, want: &[u8], fields: &[&[u8]]) {
    sym::check(out.value == 0, "no coins");
    let got = out.script.ser_ops();
    sym::check(got.len() == want.len(), "length of the message");
    sym::check(got.as_slice() == want, "bytes of the message");
    // on the wire
    let ser = out.ser();
    let mut w = vec![0; 8];
    w.extend_from_slice(&refm::var_int(want.len() as u64));
    w.extend_from_slice(want);
    sym::check(ser.as_slice() == &w[..], "output on the wire");
    // and what a reader finds
    match refm::parse_script(&got) {
        Some(ops) => {
            sym::check(ops.len() == fields.len() + 1 && ops[0].op == 0x6a, "number of fields");
            for (o, f) in ops[1..].iter().zip(fields) {
                sym::check(o.op >= 1 && o.op <= 0x4e, "only length-prefixed pushes");
                match o.data {
                    Some((a, b)) => sym::check(&got[a..b] == *f, "field"),
                    None => sym::check(false, "only length-prefixed pushes"),
                }
            }
        }
        None => sym::check(false, "parses"),
    }
}
harnesses! {
    fn c19_genesis(t, nt, nn, nu, nh, kind) {
        let (tt, tb) = token_type(t);
        let (a, b, c, d) = (text(nt, 0), text(nn, kind), text(nu, 0), text(nh, 0));
        let decimals = sym::u8();
        let baton = if sym::boolean() { Some(sym::u8()) } else { None };
        let amount = sym::u64();
        let out = slp_genesis_output(SlpGenesisParams {
            slp_token_type: tt,
            token_ticker: &a,
            token_name: &b,
            token_document_url: &c,
            token_document_hash: &d,
            decimals,
            mint_baton_vout: baton,
            initial_token_mint_quantity: amount,
        });
        let dec = [decimals];
        let bat: Vec<u8> = match baton {
            Some(x) => { sym::reach("baton"); vec![x] }
            None => { sym::reach("no baton"); vec![] }
        };
        let am = amount.to_be_bytes();
        let ty = [tb];
        let fields: [&[u8]; 10] = [b"SLP\0", &ty, b"GENESIS", a.as_bytes(), b.as_bytes(), c.as_bytes(), d.as_bytes(), &dec, &bat, &am];
        let mut w = vec![0x6a];
        for f in fields.iter() {
            push(&mut w, f);
        }
        expect(&out, &w, &fields);
    }
    fn c19_send(t, n) {
        let (tt, tb) = token_type(t);
        let h = sym::arr::<32>();
        let id = TokenId::from_hash(Sha256d::new(h));
        let mut amounts = vec![];
        for _ in 0..n {
            amounts.push(sym::u64());
        }
        let out = slp_send_output(tt, &id, &amounts);
        let ty = [tb];
        let mut shown = h;
        shown.reverse();
        let mut fields: Vec<Vec<u8>> = vec![b"SLP\0".to_vec(), ty.to_vec(), b"SEND".to_vec(), shown.to_vec()];
        for a in &amounts {
            fields.push(a.to_be_bytes().to_vec());
        }
        let mut w = vec![0x6a];
        for f in fields.iter() {
            push(&mut w, f);
        }
        let f: Vec<&[u8]> = fields.iter().map(|f| &f[..]).collect();
        expect(&out, &w, &f);
        // the amounts on their own
        let ops = slp_amount_ops(amounts.iter());
        sym::check(ops.len() == amounts.len(), "number of amounts");
        for (o, a) in ops.iter().zip(&amounts) {
            match o {
                Op::PushByteArray { array, is_minimal } => {
                    sym::check(array.as_slice() == &a.to_be_bytes()[..], "amount");
                    sym::check(!is_minimal, "length-prefixed");
                }
                _ => sym::check(false, "amount"),
            }
        }
        sym::reach("sent");
    }
    fn c19_id(n) {
        let d = sym::vec(n);
        #[allow(deprecated)]
        let r = TokenId::from_slice(&d);
        sym::check(r.is_ok() == (n == 32), "width of a token id");
        if let Ok(id) = r {
            sym::reach("token id");
            // given and shown in display order
            sym::check(id.to_vec() == d, "display order");
            let mut rev = d.clone();
            rev.reverse();
            sym::check(id.as_slice_be() == &rev[..] && id.hash().as_slice() == &rev[..], "internal order");
            sym::check(id == TokenId::from_hash(Sha256d::from_slice(&rev).unwrap()), "same id");
        }
    }
    // the coins and the inputs of a token transaction are those of the transaction
    fn c19_unhashed(ni, no) {
        let mut inputs = vec![];
        let mut outputs = vec![];
        let mut w = UnhashedTx { version: sym::i32(), inputs: vec![], outputs: vec![], lock_time: sym::u32() };
        let token = |k: u64| SlpToken { amount: sym::u64(), is_mint_baton: sym::boolean(), action: if k == 0 { SlpAction::NonSlp } else { SlpAction::SlpV1Send } };
        for i in 0..ni {
            let input = TxInput::new(TxOutpoint { tx_hash: Sha256d::new(sym::arr::<32>()), vout: sym::u32() }, Script::from_ops(vec![Op::from_array(sym::vec(3))]), sym::u32());
            w.inputs.push(input.clone());
            inputs.push(SlpTxInput { index: i as usize, token: token(i), input, prev_script: Script::default() });
        }
        for i in 0..no {
            let output = TxOutput { value: sym::u64(), script: Script::from_ops(vec![Op::from_array(sym::vec(3))]) };
            w.outputs.push(output.clone());
            outputs.push(SlpTxOutput { token: token(i), output });
        }
        let tx = SlpTx { version: w.version, inputs, outputs, lock_time: w.lock_time, slp_data: None, tx_hash: Sha256d::new([0; 32]) };
        let u = tx.into_unhashed_tx();
        sym::check(u.ser().as_slice() == w.ser().as_slice(), "the transaction without token data");
        sym::reach("unhashed");
    }
}
