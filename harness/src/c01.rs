//! C01: CompactSize
use crate::sym;
use bitcoin_cash::encoding_utils::{encode_var_int, read_var_int};
use std::io::Cursor;

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

harnesses! {
    // every 64-bit value
    fn c01_roundtrip() {
        let v = sym::u64();
        let out = encode_var_int(v);
        sym::obs(&out);
        let form = if v < 0xfd { 1 } else if v <= 0xffff { 3 } else if v <= 0xffff_ffff { 5 } else { 9 };
        sym::check(out.len() == form, "writer picks the shortest form");
        sym::check(out[0] == match form { 1 => v as u8, 3 => 0xfd, 5 => 0xfe, _ => 0xff }, "first byte announces the form");
        if form > 1 {
            sym::check(le(&out[1..]) == v, "value little-endian after the first byte");
        }
        match form { 1 => sym::reach("1 byte"), 3 => sym::reach("3 bytes"), 5 => sym::reach("5 bytes"), _ => sym::reach("9 bytes") }
        // with other bytes after it
        let mut data = out.clone();
        data.extend_from_slice(&sym::arr::<3>());
        let mut c = Cursor::new(&data[..]);
        match read_var_int(&mut c) {
            Ok(r) => {
                sym::check(r == v, "round trip");
                sym::check(c.position() as usize == out.len(), "consumes exactly what was written");
            }
            Err(_) => sym::check(false, "own encoding is read back"),
        }
    }
    // any byte string of length n
    fn c01_read(n) {
        let data = sym::vec(n);
        let mut c = Cursor::new(&data[..]);
        let r = read_var_int(&mut c);
        let need = if n == 0 { 1 } else { match data[0] { 0xfd => 3, 0xfe => 5, 0xff => 9, _ => 1 } };
        if (n as usize) < need {
            sym::check(r.is_err(), "running out of bytes is an error");
            sym::reach("short");
        } else {
            sym::reach("value");
            let want = if need == 1 { data[0] as u64 } else { le(&data[1..need]) };
            match r {
                Ok(v) => {
                    sym::obs64(v);
                    sym::check(v == want, "little-endian value of the announced form");
                    sym::check(c.position() as usize == need, "consumes exactly the announced form");
                }
                Err(_) => sym::check(false, "enough bytes give a value"),
            }
        }
    }
}
