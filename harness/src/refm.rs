//! Reference models, written from the specifications and independent of /repo's code.
#![allow(dead_code)]

pub fn le(b: &[u8]) -> u64 {
    let mut a = 0u64;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        a = a << 8 | b[i] as u64;
    }
    a
}
/// CompactSize
pub fn var_int(n: u64) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        vec![0xfd, n as u8, (n >> 8) as u8]
    } else if n <= 0xffff_ffff {
        let b = (n as u32).to_le_bytes();
        vec![0xfe, b[0], b[1], b[2], b[3]]
    } else {
        let mut v = vec![0xff];
        v.extend_from_slice(&n.to_le_bytes());
        v
    }
}
/// value, bytes used, whether it was the shortest form
pub fn read_var(d: &[u8]) -> Option<(u64, usize, bool)> {
    let need = match *d.first()? {
        0xfd => 3,
        0xfe => 5,
        0xff => 9,
        _ => 1,
    };
    if d.len() < need {
        return None;
    }
    let v = if need == 1 { d[0] as u64 } else { le(&d[1..need]) };
    let canon = match need {
        1 => true,
        3 => v >= 0xfd,
        5 => v > 0xffff,
        _ => v > 0xffff_ffff,
    };
    Some((v, need, canon))
}
/// sign-magnitude little-endian: (negative, magnitude); at most 16 bytes
pub fn num(b: &[u8]) -> (bool, u128) {
    let mut m = 0u128;
    let n = b.len();
    let mut i = n;
    while i > 0 {
        i -= 1;
        let x = if i == n - 1 { b[i] & 0x7f } else { b[i] };
        m = m << 8 | x as u128;
    }
    (n > 0 && b[n - 1] & 0x80 != 0, m)
}
/// minimal script number encoding
pub fn script_num(v: i64) -> Vec<u8> {
    let mut out = Vec::new();
    let mut m = if v < 0 { (-v) as u64 } else { v as u64 };
    while m > 0 {
        out.push(m as u8);
        m >>= 8;
    }
    if let Some(&l) = out.last() {
        if l & 0x80 != 0 {
            out.push(if v < 0 { 0x80 } else { 0 });
        } else if v < 0 {
            let k = out.len() - 1;
            out[k] |= 0x80;
        }
    }
    out
}
/// one parsed script element: (opcode byte, pushed data if it is a data push, prefix length)
pub struct RefOp {
    pub op: u8,
    pub data: Option<(usize, usize)>,
    pub end: usize,
}
/// None: truncated push
pub fn parse_script(d: &[u8]) -> Option<Vec<RefOp>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < d.len() {
        let op = d[i];
        i += 1;
        let left = d.len() - i;
        let (k, n) = match op {
            0x01..=0x4b => (0, op as u64),
            0x4c => {
                if left < 1 {
                    return None;
                }
                (1, d[i] as u64)
            }
            0x4d => {
                if left < 2 {
                    return None;
                }
                (2, le(&d[i..i + 2]))
            }
            0x4e => {
                if left < 4 {
                    return None;
                }
                (4, le(&d[i..i + 4]))
            }
            _ => {
                v.push(RefOp { op, data: None, end: i });
                continue;
            }
        };
        i += k;
        if n > (d.len() - i) as u64 {
            return None;
        }
        let n = n as usize;
        v.push(RefOp { op, data: Some((i, i + n)), end: i + n });
        i += n;
    }
    Some(v)
}
/// shortest legal push of `b` with a length prefix (ignoring OP_n forms)
pub fn push_prefixed(b: &[u8]) -> Vec<u8> {
    let n = b.len();
    let mut v = if n == 0 {
        vec![0x4c, 0]
    } else if n <= 0x4b {
        vec![n as u8]
    } else if n <= 0xff {
        vec![0x4c, n as u8]
    } else if n <= 0xffff {
        vec![0x4d, n as u8, (n >> 8) as u8]
    } else {
        vec![0x4e, n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8]
    };
    v.extend_from_slice(b);
    v
}
/// the shortest legal push
pub fn push_minimal(b: &[u8]) -> Vec<u8> {
    if b.is_empty() {
        return vec![0];
    }
    if b.len() == 1 {
        if b[0] >= 1 && b[0] <= 16 {
            return vec![0x50 + b[0]];
        }
        if b[0] == 0x81 {
            return vec![0x4f];
        }
    }
    push_prefixed(b)
}
/// opcodes 0x00, 0x4f..=0xb9 (without OP_RESERVED holes), and those the library defines
pub fn first_byte_of_minimal_push(b: &[u8]) -> u8 {
    push_minimal(b)[0]
}

/// the CashAddr string as specified, bit by bit
const SET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub fn cashaddr(prefix: &str, version: u8, hash: &[u8; 20]) -> Vec<u8> {
    text(prefix, &symbols(prefix, version, hash))
}
fn text(prefix: &str, symbols: &[u8]) -> Vec<u8> {
    let mut s: Vec<u8> = prefix.bytes().collect();
    s.push(b':');
    for d in symbols {
        s.push(SET[*d as usize]);
    }
    s
}
fn symbols(prefix: &str, version: u8, hash: &[u8; 20]) -> Vec<u8> {
    let mut bits = vec![];
    for b in [version].iter().chain(hash.iter()) {
        for i in (0..8).rev() {
            bits.push(b >> i & 1);
        }
    }
    while bits.len() % 5 != 0 {
        bits.push(0);
    }
    let mut five: Vec<u8> = bits.chunks(5).map(|c| c[0] << 4 | c[1] << 3 | c[2] << 2 | c[3] << 1 | c[4]).collect();
    let mut c: u64 = 1;
    let step = |c: u64, d: u8| {
        let top = c >> 35;
        let mut n = (c & 0x07ff_ffff_ff) << 5 ^ d as u64;
        for (i, g) in [0x98f2bc8e61u64, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470].iter().enumerate() {
            n ^= g & 0u64.wrapping_sub(top >> i & 1);
        }
        n
    };
    for b in prefix.bytes() {
        c = step(c, b & 31);
    }
    c = step(c, 0);
    for d in &five {
        c = step(c, *d);
    }
    for _ in 0..8 {
        c = step(c, 0);
    }
    c ^= 1;
    for i in 0..8 {
        five.push((c >> (5 * (7 - i)) & 31) as u8);
    }
    five
}
