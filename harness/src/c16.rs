//! C16: amounts and fees of built transactions
use crate::sym;
use crate::txs::*;
use bitcoin_cash::*;

const MAX: u64 = std::u64::MAX;
/// pushes `n` bytes as its signature
struct Sig {
    n: usize,
    p2sh: bool,
}
impl Signatory for Sig {
    type Script = TestScript;
    type Signatures = Vec<u8>;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        SigHashFlags::DEFAULT
    }
    fn placeholder_signatures(&self) -> Vec<u8> {
        vec![0x99; self.n]
    }
    fn build_script(&self, _: &TxPreimage, _: Option<usize>, sigs: Vec<u8>, _: &Script, _: &[TxOutput]) -> TestScript {
        TestScript(vec![TaggedOp::from_op(Op::from_array(sigs))])
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
fn var_len(n: usize) -> usize {
    if n < 0xfd { 1 } else if n < 0x10000 { 3 } else { 5 }
}
fn push_len(n: usize) -> usize {
    n + if n < 0x4c { 1 } else if n < 0x100 { 2 } else { 3 }
}
/// an output asked for
struct Out {
    known: bool,
    value: u64,
    lower: u64,
    upper: u64,
    prec: i32,
    script_len: usize,
    script: Script,
}
/// input values below 2^bits
fn values(n: u64, bits: u64) -> Vec<u64> {
    let mut v = vec![];
    for _ in 0..n {
        let x = sym::u64();
        if bits < 64 {
            sym::assume(x < 1 << bits);
        }
        v.push(x);
    }
    v
}
fn asked(shape: u64, no: u64, bits: u64) -> Vec<Out> {
    let mut s = shape;
    let mut outs = vec![];
    for i in 0..no {
        let p = script_parts([1, 0, 6][(i % 3) as usize]);
        let script_len = wire_of(&p).len();
        let script = script_of(&p);
        let kind = s % 3;
        s /= 3;
        outs.push(match kind {
            0 => Out { known: true, value: values(1, bits)[0], lower: 0, upper: 0, prec: 0, script_len, script },
            1 => Out { known: false, value: 0, lower: DUST_AMOUNT, upper: MAX, prec: 0, script_len, script },
            _ => Out { known: false, value: 0, lower: sym::u64(), upper: sym::u64(), prec: sym::i32(), script_len, script },
        });
    }
    outs
}
fn size(ni: u64, in_len: usize, outs: &[Out], kept: &[Option<u64>]) -> usize {
    let mut n = 8 + var_len(ni as usize) + ni as usize * (40 + var_len(in_len) + in_len);
    let mut count = 0;
    for (o, k) in outs.iter().zip(kept) {
        if k.is_some() {
            count += 1;
            n += 8 + var_len(o.script_len) + o.script_len;
        }
    }
    n + var_len(count)
}
fn case(ni: u64, shape: u64, no: u64, fee_per_kb: u64, sig: u64, p2sh: bool, bits: u64) {
    let ins = values(ni, bits);
    let outs = asked(shape, no, bits);
    let mut b = match fee_per_kb {
        1000 => TxBuilder::new(2, 7),
        _ => {
            let mut b = TxBuilder::new_with_fee(2, 7, 12345);
            b.set_fee_per_kb(fee_per_kb);
            b
        }
    };
    let lock = script_of(&script_parts(3));
    for (i, &v) in ins.iter().enumerate() {
        let u = UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new([i as u8; 32]), vout: i as u32 }, sequence: 5, value: v };
        b.add_input(u, TaggedScript::new(lock.ops().to_vec()), Sig { n: sig as usize, p2sh });
    }
    for o in &outs {
        if o.known {
            b.add_output(TxOutput { value: o.value, script: o.script.clone() });
        } else if o.lower == DUST_AMOUNT && o.upper == MAX && o.prec == 0 {
            b.add_leftover_output(o.script.clone());
        } else {
            b.add_leftover_output_bounded(o.lower, o.upper, o.prec, o.script.clone());
        }
    }
    // wide enough for any amount
    let total: u128 = ins.iter().map(|&v| v as u128).sum();
    let fixed: u128 = outs.iter().map(|o| o.value as u128).sum();
    let res = b.build();
    sym::check(res.is_ok() == (fixed <= total), "fails exactly when the fixed outputs exceed the inputs");
    let u = match res {
        Ok(u) => u,
        Err(e) => {
            sym::reach("insufficient");
            if let bitcoin_cash::error::Error::InsufficientInputAmount { amount } = e {
                sym::check(amount as u128 == (fixed - total).min(MAX as u128), "missing amount");
            } else {
                sym::check(false, "kind of error");
            }
            return;
        }
    };
    sym::check(fixed <= total, "fails exactly when the fixed outputs exceed the inputs");
    // what the outputs have to be
    let in_len = push_len(sig as usize) + if p2sh { push_len(wire_of(&script_parts(3)).len()) } else { 0 };
    let mut kept: Vec<Option<u64>> = outs.iter().map(|o| if o.known { Some(o.value) } else { None }).collect();
    let mut rest = total - fixed;
    let mut est = size(ni, in_len, &outs, &kept);
    let mut order: Vec<usize> = (0..outs.len()).filter(|&i| !outs[i].known).collect();
    // by precedence, then in the order they were added
    let k = order.len();
    for _ in 0..k {
        for j in 1..k {
            if outs[order[j - 1]].prec > outs[order[j]].prec {
                order.swap(j - 1, j);
            }
        }
    }
    let mut given = false;
    for &i in &order {
        kept[i] = Some(0);
        let n = size(ni, in_len, &outs, &kept);
        let fee = n as u128 * fee_per_kb as u128 / 1000;
        if rest > fee {
            let x = (rest - fee).min(outs[i].upper as u128);
            if x > outs[i].lower as u128 {
                kept[i] = Some(x as u64);
                rest -= x;
                est = n;
                given = true;
                continue;
            }
        }
        kept[i] = None;
    }
    let got_est = u.estimated_size();
    let tx = u.partial_tx();
    sym::check(got_est == est, "estimated size");
    sym::check(tx.version == 2 && tx.lock_time == 7, "version and lock time");
    sym::check(tx.inputs.len() == ni as usize, "inputs");
    let want: Vec<usize> = (0..outs.len()).filter(|&i| kept[i].is_some()).collect();
    sym::check(tx.outputs.len() == want.len(), "outputs that are there");
    let mut sum = 0u128;
    for (o, &i) in tx.outputs.iter().zip(&want) {
        sym::check(o.script == outs[i].script, "script of an output");
        sym::check(o.value == kept[i].unwrap(), "value of an output");
        sum += o.value as u128;
        if !outs[i].known {
            sym::check(o.value > outs[i].lower && o.value <= outs[i].upper, "leftover within its bounds");
        }
    }
    sym::check(sum <= total, "outputs never exceed the inputs");
    if given {
        sym::reach("leftover given");
        // floor(size * rate / 1000) <= what is left
        sym::check((total - sum) * 1000 + 999 >= est as u128 * fee_per_kb as u128, "the fee is paid");
    } else {
        sym::reach("no leftover");
    }
}
harnesses! {
    fn c16_build(ni, no, shape, fee, sig) {
        case(ni, shape, no, fee, sig, sig % 2 == 1, 64);
    }
    // any rate
    fn c16_rate(ni, no, shape, bits) {
        let fee = sym::u64();
        case(ni, shape, no, fee, 71, true, bits);
    }
    // the estimate is the size of the transaction when the signatures are as long as announced
    fn c16_size(ni, no, sig, p2sh) {
        let mut b = TxBuilder::new_simple();
        let lock = script_of(&script_parts(1));
        let mut refs = vec![];
        for i in 0..ni {
            let u = UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(sym::arr::<32>()), vout: sym::u32() }, sequence: sym::u32(), value: 1_000_000 };
            refs.push(b.add_input(u, TaggedScript::new(lock.ops().to_vec()), Sig { n: sig as usize + i as usize, p2sh: p2sh == 1 }));
        }
        for i in 0..no {
            b.add_output(TxOutput { value: i, script: script_of(&script_parts(i)) });
        }
        let v = sym::u64();
        sym::assume(v <= 50_000);
        b.add_output(TxOutput { value: v, script: Script::default() });
        b.add_leftover_output(script_of(&script_parts(1)));
        let mut u = match b.build() {
            Ok(u) => u,
            Err(_) => {
                sym::check(ni == 0, "enough");
                return;
            }
        };
        let est = u.estimated_size();
        for (i, r) in refs.into_iter().enumerate() {
            let s = sym::vec(sig + i as u64);
            sym::check(u.sign_input(r, s).is_ok(), "signed");
        }
        let tx = u.complete_tx();
        // a signature of one byte can be pushed without a prefix
        sym::check(tx.ser().len() <= est, "the estimate covers the size");
        sym::check(sig == 1 || tx.ser().len() == est, "the estimate is the size");
        sym::reach("sized");
    }
}
