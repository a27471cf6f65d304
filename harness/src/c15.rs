//! C15: signature-hash preimages
use crate::sym;
use crate::txs::*;
use bitcoin_cash::*;

/// the three regions of flags that matter, and all others
fn flags(class: u64) -> u8 {
    let f = sym::u8();
    match class {
        // every flag byte
        0 => {}
        1 => sym::assume(f & 0x1f == 3),
        _ => sym::assume(f & 0x1f != 3),
    }
    f
}
fn same(p: &TxPreimage, want: &[u8]) {
    let got = p.ser();
    sym::check(got.len() == want.len(), "length of the preimage");
    sym::check(got.as_slice() == want, "bytes of the preimage");
}
/// hash of a preimage as it is signed
fn digest_ok(p: &TxPreimage, want: &[u8]) {
    let d = Sha256d::digest(p.ser());
    sym::check(d.as_slice() == &sha256d(want)[..], "digest that is signed");
}
fn world(ni: u64, no: u64, ki: u64, ko: u64) -> (Vec<Inp>, Vec<TxOutput>, Vec<Vec<u8>>) {
    let mut ins = vec![];
    for i in 0..ni {
        ins.push(Inp::new((ki + i) % 8));
    }
    let mut outs = vec![];
    let mut outw = vec![];
    for i in 0..no {
        let (o, w) = output((ko + i) % 7);
        outs.push(o);
        outw.push(w);
    }
    (ins, outs, outw)
}
/// the signatory asks for any list of flags
struct Sig {
    flags: Vec<SigHashFlags>,
    p2sh: bool,
}
impl Signatory for Sig {
    type Script = TestScript;
    type Signatures = u8;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.clone()
    }
    fn placeholder_signatures(&self) -> u8 {
        0
    }
    fn build_script(&self, _: &[TxPreimage], _: Option<usize>, _: u8, _: &Script, _: &[TxOutput]) -> TestScript {
        TestScript(vec![])
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
harnesses! {
    // a transaction whose inputs know their value and lock script; the same flags for all inputs
    fn c15_tx(ni, no, ki, ko, nf, hashed) {
        let (ins, outs, outw) = world(ni, no, ki, ko);
        let version = sym::i32();
        let lock_time = sym::u32();
        let mut inputs = vec![];
        for i in &ins {
            let mut t = TxInput::new(i.outpoint(), script_of(&script_parts(1)), i.sequence);
            t.value = Some(i.value);
            t.lock_script = Some(script_of(&i.parts));
            inputs.push(t);
        }
        let tx = UnhashedTx { version, inputs, outputs: outs, lock_time };
        let mut fl = vec![];
        for _ in 0..nf {
            fl.push(flags(0));
        }
        let fs: Vec<SigHashFlags> = fl.iter().map(|&f| SigHashFlags::from_u8(f)).collect();
        let pre = if hashed == 1 { tx.hashed().preimages(&fs) } else { tx.preimages(&fs) };
        sym::check(pre.len() == ni as usize, "preimages for every input");
        for (i, ps) in pre.iter().enumerate() {
            sym::check(ps.len() == nf as usize, "a preimage for every flag");
            for (p, &f) in ps.iter().zip(&fl) {
                let want = preimage(version, &ins, &outw, lock_time, i, f);
                same(p, &want);
                if i == 0 {
                    digest_ok(p, &want);
                    if f & 0x1f == 3 && no > 0 { sym::reach("single"); }
                    if f & 0x1f == 2 { sym::reach("none"); }
                    if f & 0x80 != 0 { sym::reach("anyone can pay"); }
                    if f == 0x41 { sym::reach("all"); }
                    sym::check(p.sig_hash_type == f as u32, "hash type");
                    sym::check(p.value == ins[0].value, "value");
                }
            }
        }
    }
    // through the builder: every input has flags of its own
    fn c15_builder(ni, no, ki, ko, nf, est) {
        let (ins, outs, outw) = world(ni, no, ki, ko);
        let version = sym::i32();
        let lock_time = sym::u32();
        let mut b = TxBuilder::new_with_fee(version, lock_time, 0);
        let mut all = vec![];
        for (k, i) in ins.iter().enumerate() {
            // inputs ask for different numbers of flags
            let n = if k == 0 { nf } else { (nf + k as u64) % 3 };
            let mut fl = vec![];
            for _ in 0..n {
                fl.push(flags(0));
            }
            let s = Sig { flags: fl.iter().map(|&f| SigHashFlags::from_u8(f)).collect(), p2sh: k % 2 == 0 };
            let r = b.add_input(i.unsigned(), TaggedScript::new(script_of(&i.parts).ops().to_vec()), s);
            sym::check(r.input_idx() == k, "inputs are numbered in order");
            all.push(fl);
        }
        for o in outs {
            b.add_output(o);
        }
        let u = if est == 1 {
            match b.build() {
                Ok(u) => u,
                Err(_) => return,
            }
        } else {
            match b.build_without_estimation() {
                Ok(u) => u,
                Err(_) => {
                    sym::check(false, "no leftover outputs");
                    return;
                }
            }
        };
        sym::reach("built");
        let pre = u.preimages();
        sym::check(pre.len() == ni as usize, "preimages for every input");
        for (i, ps) in pre.iter().enumerate() {
            sym::check(ps.len() == all[i].len(), "a preimage for every flag");
            for (p, &f) in ps.iter().zip(&all[i]) {
                same(p, &preimage(version, &ins, &outw, lock_time, i, f));
            }
        }
        for i in 0..ni as usize {
            let ps = u.input_preimages::<Sig>(InputReference::new(i));
            sym::check(ps.len() == all[i].len(), "preimages of one input");
            for (p, &f) in ps.iter().zip(&all[i]) {
                same(p, &preimage(version, &ins, &outw, lock_time, i, f));
            }
        }
    }
}
