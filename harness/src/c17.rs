//! C17: signing inputs
use crate::sym;
use crate::txs::*;
use bitcoin_cash::*;

/// what a signatory was given, as pushes: everything an unlocking script may depend on
fn record(tag: u8, ps: &[TxPreimage], sig: &[u8], lock: &Script, outs: &[TxOutput]) -> Vec<Op> {
    let mut ops = vec![Op::from_array(vec![tag]), Op::from_array(sig.to_vec())];
    for p in ps {
        ops.push(Op::from_array(p.ser().to_vec()));
    }
    ops.push(Op::from_array(lock.ser_ops().to_vec()));
    for o in outs {
        ops.push(Op::from_array(o.ser().to_vec()));
    }
    ops
}
fn tagged(ops: Vec<Op>) -> TestScript {
    TestScript(ops.into_iter().map(TaggedOp::from_op).collect())
}
#[derive(Clone)]
struct One {
    tag: u8,
    flags: u8,
    p2sh: bool,
}
impl Signatory for One {
    type Script = TestScript;
    type Signatures = [u8; 4];
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        SigHashFlags::from_u8(self.flags)
    }
    fn placeholder_signatures(&self) -> [u8; 4] {
        [0; 4]
    }
    fn build_script(&self, p: &TxPreimage, _: Option<usize>, sig: [u8; 4], lock: &Script, outs: &[TxOutput]) -> TestScript {
        tagged(record(self.tag, std::slice::from_ref(p), &sig, lock, outs))
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
#[derive(Clone)]
struct Many {
    tag: u8,
    flags: Vec<u8>,
    p2sh: bool,
}
impl Signatory for Many {
    type Script = TestScript;
    type Signatures = Vec<u8>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.iter().map(|&f| SigHashFlags::from_u8(f)).collect()
    }
    fn placeholder_signatures(&self) -> Vec<u8> {
        vec![0; 4]
    }
    fn build_script(&self, p: &[TxPreimage], _: Option<usize>, sig: Vec<u8>, lock: &Script, outs: &[TxOutput]) -> TestScript {
        tagged(record(self.tag, p, &sig, lock, outs))
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
#[derive(Clone, Copy)]
enum Ref {
    One(InputReference<One>),
    Many(usize),
}
struct World {
    ins: Vec<Inp>,
    outs: Vec<TxOutput>,
    outw: Vec<Vec<u8>>,
    flags: Vec<Vec<u8>>,
    p2sh: Vec<bool>,
    many: Vec<bool>,
    sigs: Vec<[u8; 4]>,
    version: i32,
    lock_time: u32,
}
impl World {
    /// kinds: two bits per input (several preimages, pay-to-script-hash)
    fn new(ni: u64, no: u64, kinds: u64) -> World {
        let mut w = World { ins: vec![], outs: vec![], outw: vec![], flags: vec![], p2sh: vec![], many: vec![], sigs: vec![], version: sym::i32(), lock_time: sym::u32() };
        for i in 0..ni {
            let k = kinds >> (2 * i) & 3;
            w.ins.push(Inp::new([1, 3, 5][(i % 3) as usize]));
            w.many.push(k & 1 == 1);
            w.p2sh.push(k & 2 == 2);
            // flags of each region; which bytes does not matter here
            w.flags.push(if k & 1 == 1 { vec![0xc3, 0x41] } else { vec![[0x41, 0x42, 0xc1][(i % 3) as usize]] });
            w.sigs.push(sym::arr::<4>());
        }
        for i in 0..no {
            let (o, b) = output(i % 2);
            w.outs.push(o);
            w.outw.push(b);
        }
        w
    }
    fn one(&self, i: usize) -> One {
        One { tag: 0x40 + i as u8, flags: self.flags[i][0], p2sh: self.p2sh[i] }
    }
    fn manys(&self, i: usize) -> Many {
        Many { tag: 0x40 + i as u8, flags: self.flags[i].clone(), p2sh: self.p2sh[i] }
    }
    fn builder(&self) -> (TxBuilder<'static>, Vec<Ref>) {
        let mut b = TxBuilder::new_with_fee(self.version, self.lock_time, 0);
        let mut refs = vec![];
        for (i, x) in self.ins.iter().enumerate() {
            let lock = TaggedScript::new(script_of(&x.parts).ops().to_vec());
            refs.push(if self.many[i] {
                Ref::Many(b.add_input(x.unsigned(), TaggedScript::new(lock.ops().to_vec()), self.manys(i)).input_idx())
            } else {
                Ref::One(b.add_input(x.unsigned(), lock, self.one(i)))
            });
        }
        for o in &self.outs {
            b.add_output(o.clone());
        }
        (b, refs)
    }
    /// signs in one of the three ways
    fn sign(&self, u: &mut UnsignedTx, i: usize, r: Ref, way: u64, sig: [u8; 4]) -> bitcoin_cash::error::Result<()> {
        match (r, way) {
            (Ref::One(r), 0) => u.sign_input(r, sig),
            (Ref::One(r), 1) => u.sign_input_signatory(r, self.one(i), sig),
            (Ref::One(_), _) => u.sign_input_dyn(i, Box::new(sig)),
            (Ref::Many(k), 0) => u.sign_input::<Many>(InputReference::new(k), sig.to_vec()),
            (Ref::Many(k), 1) => u.sign_input_signatory(InputReference::new(k), self.manys(i), sig.to_vec()),
            (Ref::Many(k), _) => u.sign_input_dyn(k, Box::new(sig.to_vec())),
        }
    }
    /// pushes of the unlocking script of an input
    fn want(&self, i: usize) -> Vec<Vec<u8>> {
        let mut v = vec![vec![0x40 + i as u8], self.sigs[i].to_vec()];
        for &f in &self.flags[i] {
            v.push(preimage(self.version, &self.ins, &self.outw, self.lock_time, i, f));
        }
        let lock = wire_of(&self.ins[i].parts);
        v.push(lock.clone());
        for o in &self.outw {
            v.push(o.clone());
        }
        if self.p2sh[i] {
            v.push(lock);
        }
        v
    }
    fn check_input(&self, t: &TxInput, i: usize, signed: bool) {
        let x = &self.ins[i];
        sym::check(t.prev_out.tx_hash.as_slice() == &x.hash[..] && t.prev_out.vout == x.vout, "outpoint kept");
        sym::check(t.sequence == x.sequence, "sequence kept");
        sym::check(t.value == Some(x.value), "value kept");
        sym::check(t.is_p2sh == Some(self.p2sh[i]), "kind kept");
        match &t.lock_script {
            Some(l) => sym::check(l.ser_ops().as_slice() == &wire_of(&x.parts)[..], "lock script kept"),
            None => sym::check(false, "lock script kept"),
        }
        match &t.sig_hash_flags {
            Some(f) => sym::check(f.len() == self.flags[i].len() && f.iter().zip(&self.flags[i]).all(|(a, b)| a.bits() == *b as u32), "flags kept"),
            None => sym::check(false, "flags kept"),
        }
        let ops = t.script.ops();
        if !signed {
            sym::check(ops.len() == 0, "no script before signing");
            return;
        }
        let want = self.want(i);
        sym::check(ops.len() == want.len(), "operations of the unlocking script");
        for (o, w) in ops.iter().zip(&want) {
            match &o.op {
                Op::PushByteArray { array, is_minimal } => {
                    sym::check(array.as_slice() == &w[..], "unlocking script");
                    sym::check(*is_minimal, "minimal push");
                }
                _ => sym::check(false, "unlocking script"),
            }
        }
    }
    fn check_tx(&self, tx: &UnhashedTx, signed: &[bool]) {
        sym::check(tx.version == self.version && tx.lock_time == self.lock_time, "version and lock time");
        sym::check(tx.inputs.len() == self.ins.len(), "inputs");
        sym::check(tx.outputs.len() == self.outs.len(), "outputs");
        for (o, w) in tx.outputs.iter().zip(&self.outw) {
            sym::check(o.ser().as_slice() == &w[..], "output kept");
        }
        for (i, t) in tx.inputs.iter().enumerate() {
            self.check_input(t, i, signed[i]);
        }
    }
}
fn permutation(n: usize, mut p: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let k = p as usize % left.len();
        p /= left.len() as u64;
        out.push(left.remove(k));
    }
    out
}
harnesses! {
    // all inputs, in every order and way; signing again is an error that changes nothing
    fn c17_sign(ni, no, kinds, perm, ways) {
        let w = World::new(ni, no, kinds);
        let (b, refs) = w.builder();
        let mut u = match b.build_without_estimation() {
            Ok(u) => u,
            Err(_) => {
                sym::check(false, "built");
                return;
            }
        };
        let mut ways = ways;
        let order = permutation(ni as usize, perm);
        for (n, &i) in order.iter().enumerate() {
            let way = ways % 3;
            ways /= 3;
            sym::check(w.sign(&mut u, i, refs[i], way, w.sigs[i]).is_ok(), "first signature");
            // any input signed so far, again and with something else
            let j = order[n / 2];
            match w.sign(&mut u, j, refs[j], (way + n as u64 + 1) % 3, sym::arr::<4>()) {
                Err(bitcoin_cash::error::Error::InputAlreadySigned { input_idx }) => sym::check(input_idx == j, "input named by the error"),
                _ => sym::check(false, "second signature refused"),
            }
        }
        let tx = u.complete_tx();
        w.check_tx(&tx, &vec![true; ni as usize]);
        sym::reach("signed");
    }
    // some inputs now, the others after going through a builder again
    fn c17_continue(ni, no, kinds, mask, how) {
        let w = World::new(ni, no, kinds);
        let (b, refs) = w.builder();
        let mut u = match b.build_without_estimation() {
            Ok(u) => u,
            Err(_) => return,
        };
        let mut signed = vec![false; ni as usize];
        for i in 0..ni as usize {
            if mask >> i & 1 == 1 {
                sym::check(w.sign(&mut u, i, refs[i], 0, w.sigs[i]).is_ok(), "first signature");
                signed[i] = true;
            }
        }
        let part = u.partial_tx();
        w.check_tx(&part, &signed);
        let b = TxBuilder::from_tx(part);
        sym::check(b.version() == w.version && b.lock_time() == w.lock_time, "version and lock time");
        let mut u = if how == 0 {
            match b.build_without_estimation() {
                Ok(u) => u,
                Err(_) => {
                    sym::check(false, "built again");
                    return;
                }
            }
        } else {
            match b.build() {
                Ok(u) => u,
                // the outputs are worth more than the inputs
                Err(_) => return,
            }
        };
        for i in 0..ni as usize {
            for (p, &f) in u.preimages()[i].iter().zip(&w.flags[i]) {
                sym::check(p.ser().as_slice() == &preimage(w.version, &w.ins, &w.outw, w.lock_time, i, f)[..], "preimages of the continued transaction");
            }
            if signed[i] {
                sym::check(w.sign(&mut u, i, refs[i], 1, sym::arr::<4>()).is_err(), "still signed");
            } else {
                sym::check(w.sign(&mut u, i, refs[i], 1, w.sigs[i]).is_ok(), "signed later");
                sym::reach("signed later");
            }
        }
        let tx = u.complete_tx();
        w.check_tx(&tx, &vec![true; ni as usize]);
        sym::reach("completed");
    }
}
