//! Shared pieces for the transaction properties: scripts and outputs with symbolic
//! contents and their wire form, and a signatory whose behaviour is under the harness' control.
#![allow(dead_code)]
use crate::{refm, sym};
use bitcoin_cash::*;
use sha2::Digest;

pub fn sha256d(b: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(&sha2::Sha256::digest(b)).to_vec()
}
/// operations and their wire form, one element per operation
pub fn script_parts(kind: u64) -> Vec<(Op, Vec<u8>)> {
    fn code(o: Opcode) -> (Op, Vec<u8>) {
        (Op::Code(o), vec![o as u8])
    }
    fn push(n: u64) -> (Op, Vec<u8>) {
        let d = sym::vec(n);
        let mut w = vec![n as u8];
        w.extend_from_slice(&d);
        (Op::from_array(d), w)
    }
    match kind {
        0 => vec![],
        1 => vec![code(Opcode::OP_DUP), code(Opcode::OP_HASH160), push(20), code(Opcode::OP_EQUALVERIFY), code(Opcode::OP_CHECKSIG)],
        // separators in front, in the middle, at the end
        2 => vec![code(Opcode::OP_CODESEPARATOR), push(2), code(Opcode::OP_CHECKSIG)],
        3 => vec![push(2), code(Opcode::OP_CODESEPARATOR), push(3), code(Opcode::OP_CODESEPARATOR), code(Opcode::OP_CHECKSIG)],
        4 => vec![code(Opcode::OP_DROP), (Op::Invalid(0xbe), vec![0xbe]), code(Opcode::OP_CODESEPARATOR)],
        // a separator byte inside a push is none
        5 => {
            let d = sym::vec(2);
            vec![(Op::from_array(vec![0xab, d[0], 0xab, d[1]]), vec![4, 0xab, d[0], 0xab, d[1]]), code(Opcode::OP_CHECKSIG)]
        }
        6 => {
            // longer than one CompactSize byte
            let d = sym::vec(300);
            let mut w = vec![0x4d, 44, 1];
            w.extend_from_slice(&d);
            vec![(Op::from_array(d), w)]
        }
        _ => {
            // arbitrary one-byte operations, the separator among them
            let mut v = vec![];
            for _ in 0..3 {
                let b = sym::u8();
                sym::assume(b >= 0x61 && b < Opcode::FIRST_UNDEFINED_OP_VALUE as u8);
                v.push((Op::Code(unsafe { std::mem::transmute::<u8, Opcode>(b) }), vec![b]));
            }
            v
        }
    }
}
pub fn script_of(parts: &[(Op, Vec<u8>)]) -> Script {
    Script::from_ops(parts.iter().map(|p| p.0.clone()))
}
pub fn wire_of(parts: &[(Op, Vec<u8>)]) -> Vec<u8> {
    let mut w = vec![];
    for p in parts {
        w.extend_from_slice(&p.1);
    }
    w
}
/// what follows the first code separator, or everything
pub fn after_separator(parts: &[(Op, Vec<u8>)]) -> Vec<u8> {
    for i in 0..parts.len() {
        if parts[i].1[0] == 0xab {
            return wire_of(&parts[i + 1..]);
        }
    }
    wire_of(parts)
}
pub fn with_len(w: &[u8]) -> Vec<u8> {
    let mut v = refm::var_int(w.len() as u64);
    v.extend_from_slice(w);
    v
}
/// an output and its wire form
pub fn output(kind: u64) -> (TxOutput, Vec<u8>) {
    let p = script_parts(kind);
    let value = sym::u64();
    let mut w = value.to_le_bytes().to_vec();
    w.extend_from_slice(&with_len(&wire_of(&p)));
    (TxOutput { value, script: script_of(&p) }, w)
}
/// what the digest of an input needs to know
pub struct Inp {
    pub hash: [u8; 32],
    pub vout: u32,
    pub sequence: u32,
    pub value: u64,
    pub parts: Vec<(Op, Vec<u8>)>,
}
impl Inp {
    pub fn new(kind: u64) -> Inp {
        Inp { hash: sym::arr::<32>(), vout: sym::u32(), sequence: sym::u32(), value: sym::u64(), parts: script_parts(kind) }
    }
    pub fn outpoint(&self) -> TxOutpoint {
        TxOutpoint { tx_hash: Sha256d::new(self.hash), vout: self.vout }
    }
    pub fn outpoint_wire(&self) -> Vec<u8> {
        let mut w = self.hash.to_vec();
        w.extend_from_slice(&self.vout.to_le_bytes());
        w
    }
    pub fn unsigned(&self) -> UnsignedTxInput {
        UnsignedTxInput { prev_out: self.outpoint(), sequence: self.sequence, value: self.value }
    }
}
/// the digest preimage of the BCH specification
pub fn preimage(version: i32, ins: &[Inp], outs: &[Vec<u8>], lock_time: u32, idx: usize, flags: u8) -> Vec<u8> {
    let anyone = flags & 0x80 != 0;
    let base = flags & 0x1f;
    let single = base == 3;
    let none = base == 2;
    let mut w = version.to_le_bytes().to_vec();
    if anyone {
        w.extend_from_slice(&[0; 32]);
    } else {
        let mut b = vec![];
        for i in ins {
            b.extend_from_slice(&i.outpoint_wire());
        }
        w.extend_from_slice(&sha256d(&b));
    }
    if anyone || single || none {
        w.extend_from_slice(&[0; 32]);
    } else {
        let mut b = vec![];
        for i in ins {
            b.extend_from_slice(&i.sequence.to_le_bytes());
        }
        w.extend_from_slice(&sha256d(&b));
    }
    w.extend_from_slice(&ins[idx].outpoint_wire());
    w.extend_from_slice(&with_len(&after_separator(&ins[idx].parts)));
    w.extend_from_slice(&ins[idx].value.to_le_bytes());
    w.extend_from_slice(&ins[idx].sequence.to_le_bytes());
    if !single && !none {
        let mut b = vec![];
        for o in outs {
            b.extend_from_slice(o);
        }
        w.extend_from_slice(&sha256d(&b));
    } else if single && idx < outs.len() {
        w.extend_from_slice(&sha256d(&outs[idx]));
    } else {
        w.extend_from_slice(&[0; 32]);
    }
    w.extend_from_slice(&lock_time.to_le_bytes());
    w.extend_from_slice(&(flags as u32).to_le_bytes());
    w
}
/// the unlocking script of the test signatories
#[derive(Clone)]
pub struct TestScript(pub Vec<TaggedOp>);
impl Ops for TestScript {
    fn ops(&self) -> std::borrow::Cow<[TaggedOp]> {
        self.0.as_slice().into()
    }
}
